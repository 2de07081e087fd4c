From 3cc958026e26fb54af7da4848497203e8b55038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 01/75] fix: do not emit an empty unknown command when the
 stream starts with text

The parser emitted an empty Unknown command whenever the first command of a
stream was text or an unrecognised sequence, so every plain text stream
rendered with a spurious UnknownCommand error.
---
 thermal_parser/src/parser.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 066fa6b..36a0446 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -166,9 +166,6 @@ impl Parser {
                 if new_cmd.is_some() {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
-                } else {
-                    //Generally an unknown command at the start of the binary
-                    self.emit_command(self.cmd_set.unknown.clone());
                 }
                 return;
             }
-- 
2.43.0


From 5feb41be4d583264b466fedace2989d77b256441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 02/75] fix: end a NUL terminated barcode at its terminator

The terminator was only removed from the data when another byte followed, so a
GS k barcode at the end of a stream kept the NUL and failed to encode.
---
 thermal_parser/src/commands/barcode.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 27b5b70..0831ae1 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -51,6 +51,7 @@ struct BarcodeHandler {
     capacity: u8,
     has_capacity: bool,
     accept_data: bool,
+    terminated: bool,
     raw_params: Vec<u8>,
 }
 
@@ -331,10 +332,14 @@ impl CommandHandler for BarcodeHandler {
 
         return match self.encoding {
             EncodingFunction::NulTerminated => {
-                if *data.last().unwrap_or(&0x01) == NUL {
-                    data.pop();
+                if self.terminated {
                     return false;
                 }
+                //The terminator is consumed, but it is not part of the data
+                if byte == NUL {
+                    self.terminated = true;
+                    return true;
+                }
                 data.push(byte);
                 true
             }
@@ -368,6 +373,7 @@ pub fn new() -> Command {
             capacity: 0,
             has_capacity: false,
             accept_data: false,
+            terminated: false,
             raw_params: vec![],
         }),
     )
-- 
2.43.0


From 23da58f36e1839176f3428340859cd05eae4d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 03/75] fix: execute a GS ( function that ends the stream

The function header was only interpreted when a further byte arrived and the
payload was only handed over when a byte was rejected, so the last GS ( k,
GS ( L or GS 8 L function of a stream was dropped or ran without its data.
---
 thermal_parser/src/parser.rs          |  5 +++++
 thermal_parser/src/subcommands/mod.rs | 26 +++++++++-----------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 36a0446..7fa0585 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -58,6 +58,11 @@ impl Parser {
             let command = &mut cmd;
 
             if let Some(mut subcommand) = command.handler.get_subcommand() {
+                //At the end of a stream, the data has not been moved yet
+                if subcommand.data.is_empty() {
+                    mem::swap(&mut subcommand.data, &mut command.data);
+                }
+
                 let mut expanded_cmds = vec![];
 
                 for command in command.commands.iter() {
diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 1408238..ef5d731 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -113,29 +113,21 @@ impl CommandHandler for SubCommandHandler {
     }
 
     fn push(&mut self, data: &mut Vec<u8>, byte: u8) -> bool {
-        let mut data_len = data.len();
-
         if !self.accept_data {
+            data.push(byte);
+
             // Large subcommands use two extra bytes to determine data size
-            if self.is_large {
-                if data_len < 6 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..6]);
-            } else {
-                if data_len < 4 {
-                    data.push(byte);
-                    return true;
-                }
-                self.parse_meta(&data[0..4]);
+            let meta_len = if self.is_large { 6 } else { 4 };
+
+            if data.len() == meta_len {
+                self.parse_meta(data.as_slice());
+                data.clear();
             }
-            data.clear();
-            data_len = 0;
+            return true;
         }
 
         //Accept data
-        if data_len < (self.capacity as usize) {
+        if data.len() < (self.capacity as usize) {
             data.push(byte);
             return true;
         }
-- 
2.43.0


From 72824f3d87489ca5c6b9104b53ee42ae391312dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 04/75] fix: accept a GS ( function with a declared length
 below two

The length of such a function was reduced by two without a check and underflowed.
---
 thermal_parser/src/subcommands/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index ef5d731..3503378 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -54,7 +54,7 @@ impl SubCommandHandler {
 
         if data_len == 4 {
             self.capacity = parse_u16(&data.to_vec(), 0) as u32;
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(2).unwrap();
             self.subcommand_id = *data.get(3).unwrap();
         }
@@ -62,7 +62,7 @@ impl SubCommandHandler {
         if data_len == 6 {
             //TODO why is this number too big
             self.capacity = parse_u32(&data.to_vec(), 0);
-            self.capacity -= 2;
+            self.capacity = self.capacity.saturating_sub(2);
             self.m = *data.get(4).unwrap();
             self.subcommand_id = *data.get(5).unwrap();
         }
-- 
2.43.0


From dd1e325d09ded54d92fc9a63474a114e3d5cf6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 05/75] fix: do not swallow a byte after GS ( N with a declared
 length of zero

---
 thermal_parser/src/commands/set_character_effects.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_character_effects.rs b/thermal_parser/src/commands/set_character_effects.rs
index 35e3372..8a36b04 100644
--- a/thermal_parser/src/commands/set_character_effects.rs
+++ b/thermal_parser/src/commands/set_character_effects.rs
@@ -17,8 +17,6 @@ impl CommandHandler for Handler {
             let pl = *command.get(0).unwrap();
             let ph = *command.get(1).unwrap();
             self.capacity = (pl as u32 + ph as u32 * 256) + 2;
-            command.push(byte);
-            return true;
         }
 
         if command.len() < self.capacity as usize {
-- 
2.43.0


From 0fa4e1f380954488fd12c3124aa22fb3fc387be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:55 +0000
Subject: [PATCH 06/75] fix: keep the blue channel when the alpha of a color is
 replaced

RGBA::with_alpha copied the green channel into blue, so images in the third
color were printed in a different color.
---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30150e9..c4c3cd7 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -34,7 +34,7 @@ impl RGBA {
         RGBA {
             r: self.r,
             g: self.g,
-            b: self.g,
+            b: self.b,
             a,
         }
     }
-- 
2.43.0


From de230e1ad891572294924d1f240363ab966f25a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 07/75] fix: accept the ASCII error correction levels of a QR
 code

---
 .../src/subcommands/gs_code2d/qr_set_correction_level.rs    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
index 07a1cc8..a1f3b5b 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_set_correction_level.rs
@@ -8,9 +8,9 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&48u8);
 
         context.code2d.qr_error_correction = match n {
-            1 => QrErrorCorrection::M,
-            2 => QrErrorCorrection::Q,
-            3 => QrErrorCorrection::H,
+            1 | 49 => QrErrorCorrection::M,
+            2 | 50 => QrErrorCorrection::Q,
+            3 | 51 => QrErrorCorrection::H,
             _ => QrErrorCorrection::L,
         }
     }
-- 
2.43.0


From 96d838ecfdf4e6a8b6ff5f0c7c55d03782979dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:05 +0000
Subject: [PATCH 08/75] fix: keep the storage parameter out of the data of a QR
 code

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index a6e34ae..0258c23 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -34,7 +34,8 @@ fn minimum_version_for_bytes(byte_len: i16, max_version: i16) -> i16 {
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        let data = command.data.to_owned();
+        //The first byte is the storage parameter m, it is not part of the symbol
+        let data = command.data.get(1..).unwrap_or(&[]).to_vec();
         
         //Max number of modules per version
         let max_modules: i16 = match &context.code2d.qr_model {
-- 
2.43.0


From cf5cb5fb5b2e7ae2c6a28c4c436e2d3ed0d891e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:57 +0000
Subject: [PATCH 09/75] fix: use a larger QR version when the error correction
 needs it

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 0258c23..7508741 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -47,12 +47,6 @@ impl CommandHandler for Handler {
         //Minimum number of modules required to encode the binary length
         let min_modules = minimum_version_for_bytes(data.len() as i16, max_modules);
         
-        let version = match &context.code2d.qr_model {
-            QrModel::Model1 => Version::Normal(min_modules),
-            QrModel::Model2 => Version::Normal(min_modules),
-            Micro => Version::Micro(min_modules),
-        };
-
         let error_correction = match context.code2d.qr_error_correction {
             QrErrorCorrection::M => EcLevel::M,
             QrErrorCorrection::Q => EcLevel::Q,
@@ -60,7 +54,25 @@ impl CommandHandler for Handler {
             _ => EcLevel::L,
         };
 
-        let result = QrCode::with_version(data, version, error_correction);
+        //The capacities don't account for the error correction level,
+        //use the first version that has enough room
+        let encode = |v: i16| {
+            let version = match &context.code2d.qr_model {
+                QrModel::Model1 => Version::Normal(v),
+                QrModel::Model2 => Version::Normal(v),
+                Micro => Version::Micro(v),
+            };
+            QrCode::with_version(&data, version, error_correction)
+        };
+
+        let mut result = encode(min_modules);
+
+        for v in min_modules + 1..=max_modules {
+            if result.is_ok() {
+                break;
+            }
+            result = encode(v);
+        }
 
         match result {
             Ok(qr) => {
-- 
2.43.0


From 513857f4b7a867a283793052694547d5458498f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 10/75] fix: drop the stored symbol when QR data can not be
 encoded

---
 thermal_parser/src/subcommands/gs_code2d/qr_store.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 7508741..0e159be 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -94,6 +94,8 @@ impl CommandHandler for Handler {
                 context.code2d.symbol_storage = Some(qrcode);
             }
             Err(e) => {
+                //The previous symbol must not be printed in place of this one
+                context.code2d.symbol_storage = None;
                 println!("QR ERROR {} data: {:?}", e, String::from_utf8(command.data.clone()).unwrap_or("".to_string()));
             }
         }
-- 
2.43.0


From 9710b998ce6061991f5c35dacd21eed1249994e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 11/75] fix: keep the rows of a clipped 2D code aligned

---
 thermal_renderer/src/renderer.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4de2074..ec4e55e 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -319,16 +319,14 @@ impl<'a, Output> Renderer<'a, Output> {
 
             if *p > 0 {
                 //Prevent rendering outside of print area
-                if context.get_available_width() < code_2d.point_width as u32 {
-                    continue;
+                if context.get_available_width() >= code_2d.point_width as u32 {
+                    graphics.push(VectorGraphic::Rectangle(Rectangle {
+                        x: context.get_x(),
+                        y: context.get_y(),
+                        w: code_2d.point_width as u32,
+                        h: code_2d.point_height as u32,
+                    }));
                 }
-
-                graphics.push(VectorGraphic::Rectangle(Rectangle {
-                    x: context.get_x(),
-                    y: context.get_y(),
-                    w: code_2d.point_width as u32,
-                    h: code_2d.point_height as u32,
-                }));
             }
             context.offset_x(code_2d.point_width as u32);
             i += 1;
-- 
2.43.0


From 4688aafca4ccebf3c52a72ffc3d0d09dd411663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 12/75] fix: advance past the last row of a 2D code

---
 thermal_renderer/src/renderer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index ec4e55e..54ff264 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -334,6 +334,9 @@ impl<'a, Output> Renderer<'a, Output> {
 
         context.reset_x();
 
+        //Move past the last row
+        context.offset_y(code_2d.point_height as u32);
+
         self.renderer.render_graphics(context, &graphics);
     }
 
-- 
2.43.0


From 41d9c4e9205b09cfb8578053847051ce0418070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:02 +0000
Subject: [PATCH 13/75] fix: do not overflow on out of range 2D code parameters

---
 .../src/subcommands/gs_code2d/datamatrix_set_options.rs       | 2 +-
 thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs     | 2 +-
 .../src/subcommands/gs_code2d/pdf417_set_correction_level.rs  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
index 5479a1b..e9fafc0 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_options.rs
@@ -15,7 +15,7 @@ impl CommandHandler for Handler {
 
         match m {
             0 | 48 => {
-                if d1 + d2 > 0 {
+                if d1 > 0 || d2 > 0 {
                     columns = d1;
                     rows = d2;
                 }
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
index ce2fe3c..803fb16 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_set_mode.rs
@@ -8,7 +8,7 @@ impl CommandHandler for Handler {
         let n = *command.data.get(0).unwrap_or(&50u8);
 
         //mode 2 through 6
-        context.code2d.maxicode_mode = n - 48;
+        context.code2d.maxicode_mode = n.saturating_sub(48);
     }
 }
 
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index 4692cf7..b6ec50c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -8,8 +8,8 @@ impl CommandHandler for Handler {
         let m = *command.data.get(0).unwrap_or(&48u8);
         let n = *command.data.get(1).unwrap_or(&48u8);
 
-        let codeword_count = command.data.len() - 2; //Assuming it's one byte per codeword
-        let mut level = m - 48;
+        let codeword_count = command.data.len().saturating_sub(2); //Assuming it's one byte per codeword
+        let mut level = m.saturating_sub(48);
 
         //Ratio based error correction
         if m == 49 {
-- 
2.43.0


From d9ac76801c8007b8d14ea25c19891a025d93a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 14/75] fix: use the data matrix id for its width command

---
 .../src/subcommands/gs_code2d/datamatrix_set_width.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
index 5224068..39a3250 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_set_width.rs
@@ -12,7 +12,7 @@ impl CommandHandler for Handler {
 pub fn new() -> Command {
     Command::new(
         "Datamatrix Sets the dot Width",
-        vec![52, 67],
+        vec![54, 67],
         CommandType::Context,
         DataType::Subcommand,
         Box::new(Handler),
-- 
2.43.0


From 303d739893884eaf3831c9e2ba2833158a547284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 15/75] fix: keep the composite maximum width apart from the
 GS1 one

---
 .../src/subcommands/gs_code2d/composite_set_max_width.rs        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
index 827cdc9..8f964c5 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_set_max_width.rs
@@ -7,7 +7,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let nl = *command.data.get(0).unwrap_or(&0u8);
         let nh = *command.data.get(1).unwrap_or(&0u8);
-        context.code2d.gs1_databar_max_width = nl as u32 + nh as u32 * 256;
+        context.code2d.composite_max_width = nl as u32 + nh as u32 * 256;
     }
 }
 
-- 
2.43.0


From a9a66f67f9fb180f9397a12aa2d0998979134994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:18 +0000
Subject: [PATCH 16/75] fix: keep motion units within one to 255 dots

---
 thermal_parser/src/commands/set_motion_units.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index 2abdc8e..ecfcd55 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -19,8 +19,8 @@ impl CommandHandler for Handler {
             return;
         }
 
-        let h_motion_unit = context.graphics.dots_per_inch / x as u16;
-        let v_motion_unit = context.graphics.dots_per_inch / y as u16;
+        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
+        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
 
         if x > 0 {
             context.graphics.h_motion_unit = h_motion_unit as u8;
-- 
2.43.0


From 65de4ee6ffd1e88d5054aa09679829a2fae6bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 17/75] fix: treat color number 48 as no color

---
 thermal_parser/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 2985a51..313abec 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -117,7 +117,7 @@ pub struct RenderColors {
 impl RenderColors {
     pub fn color_for_number(&self, number: u8) -> &RGBA {
         match number {
-            0 => &self.paper_color,
+            0 | 48 => &self.paper_color,
             1 | 49 => &self.color_1,
             2 | 50 => &self.color_2,
             3 | 51 => &self.color_3,
-- 
2.43.0


From 933a8a0f080efc6af059f0cf99bab868f8fb557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 18/75] fix: accept the ASCII quadruple mode of a raster bit
 image

---
 thermal_parser/src/commands/raster_bit_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/raster_bit_image.rs b/thermal_parser/src/commands/raster_bit_image.rs
index caaa18b..cad3ca4 100644
--- a/thermal_parser/src/commands/raster_bit_image.rs
+++ b/thermal_parser/src/commands/raster_bit_image.rs
@@ -16,7 +16,7 @@ impl CommandHandler for Handler {
             0 | 48 => (1, 1),
             1 | 49 => (2, 1),
             2 | 50 => (1, 2),
-            3 | 52 => (2, 2),
+            3 | 51 => (2, 2),
             _ => (1, 1),
         };
 
-- 
2.43.0


From 9c324c65a6d6595274181bd3accfe7cfe968d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 19/75] fix: keep the parts of a long word of wide characters
 within the line

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 54ff264..e1ed75e 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -495,7 +495,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 //Break the word into parts for super long words
                 let mut broken = word.break_apart(
                     (avail_width / word.character_width) as usize,
-                    (max_width / word.character_width).max(word.character_width) as usize,
+                    (max_width / word.character_width).max(1) as usize,
                 );
 
                 let broken_len = broken.len() - 1;
-- 
2.43.0


From 8dfbecf42567c526c49f05c52b2b2271aa9a63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 20/75] fix: do not underflow when a right justified line is
 wider than its area

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index e1ed75e..d42b078 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -559,7 +559,7 @@ impl<'a, Output> Renderer<'a, Output> {
 
             match justification {
                 TextJustify::Right => {
-                    line_offset = max_width - line_width;
+                    line_offset = max_width.saturating_sub(line_width);
                 }
                 TextJustify::Center => {
                     if line_width < max_width {
-- 
2.43.0


From 3bacf1afb71c7d003cb488a9fc5ec3274506d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 21/75] fix: support reverse line feeds

---
 thermal_parser/src/context.rs    | 7 +++++++
 thermal_renderer/src/renderer.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 313abec..8944cf0 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -713,6 +713,13 @@ impl Context {
         self.offset_y(line_height * count);
     }
 
+    //Moves back up, but never past the base y
+    pub fn reverse_newline(&mut self, count: u32) {
+        let y = self.get_y().saturating_sub(self.get_base_y());
+        self.reset_x();
+        self.set_y(y.saturating_sub(self.line_height_pixels() * count));
+    }
+
     pub fn newline_for_spans(&mut self, spans: &Vec<TextSpan>) {
         let mut line_height = self.text.line_spacing as u32;
 
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index d42b078..5696892 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -255,7 +255,11 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.output_buffer.push(output);
                     }
                     DeviceCommand::FeedLine(num_lines) => {
-                        self.context.newline(*num_lines as u32);
+                        if *num_lines < 0 {
+                            self.context.reverse_newline(num_lines.unsigned_abs() as u32);
+                        } else {
+                            self.context.newline(*num_lines as u32);
+                        }
                     }
                     DeviceCommand::Feed(num) => {
                         self.context.feed(*num as u32);
-- 
2.43.0


From 7d59c6080ec5c3deb3f9fcf73e6c670d3b03fa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 22/75] fix: crop by height when pixels exceed a page image

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 5f4c108..71fdada 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -526,7 +526,7 @@ impl ThermalImage {
 
         //Width can never grow, height can grow is auto_grow = true
         let needs_crop_w = x + width > self.width;
-        let needs_crop_h = !self.auto_grow && (y + width > self.get_height());
+        let needs_crop_h = !self.auto_grow && (y + height > self.get_height());
 
         let (final_width, final_height, final_pixels) = if needs_crop_w || needs_crop_h {
             let max_width = self.width - x;
-- 
2.43.0


From d4f43ad5512de8c8efb0ece70b3e23e84eb0f18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 23/75] fix: report EAN 13 data that can not be split as an
 error

---
 thermal_parser/src/commands/barcode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 0831ae1..61f8341 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -190,7 +190,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = &data[..12];
+                let data_sp = data.get(..12).unwrap_or(data);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
-- 
2.43.0


From 1475e380111eb972659db0d979ba3fb341429e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 24/75] fix: report a large image without its data as an error

---
 thermal_parser/src/graphics.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index c4c3cd7..737d927 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -246,10 +246,10 @@ impl GraphicsCommand {
         };
 
         //Ensure there are enough bytes to construct the final image
-        if unpacked.len() != (width * height) as usize {
+        if unpacked.len() != width as usize * height as usize {
             return GraphicsCommand::Error(format!(
                 "Not enough data to parse single color raster image expected: {} got: {}",
-                (width * height),
+                width as usize * height as usize,
                 unpacked.len()
             ));
         }
@@ -376,7 +376,8 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
 /// Unpacks bits into bytes and makes sure that extra padding
 /// is added for widths that are not divisible by eight.
 fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
-    let mut bytes = Vec::with_capacity(width as usize * height as usize);
+    let mut bytes =
+        Vec::with_capacity((width as usize * height as usize).min(pixels.len() * 8));
 
     //number of bytes we need to use for the last column of each row of data
     let mut padding = width % 8;
-- 
2.43.0


From 855eec8cb6e9617fc9f69e99dee15f021040a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 25/75] fix: report a column image without all its data as an
 error

---
 thermal_parser/src/graphics.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 737d927..010e94f 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -412,6 +412,13 @@ fn unpack_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
 /// done on the unpacked bytes to get the image in the correct orientation.
 fn column_to_bytes(pixels: &[u8], width: u32, height: u32) -> Vec<u8> {
     let unpacked = unpack_bytes(pixels, height, width);
+
+    //There is nothing to rotate when the size doesn't match,
+    //the caller reports it as an error
+    if unpacked.len() != width as usize * height as usize {
+        return unpacked;
+    }
+
     let rot = rotate_90_clockwise(unpacked, height, width);
     flip_right_to_left(rot, width, height)
 }
-- 
2.43.0


From 21e6822807016bbe1816413db5dbc6b3e5fe1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:56 +0000
Subject: [PATCH 26/75] fix: require all parameters of buffer graphics

---
 .../src/subcommands/gs_graphics/store_buffer_graphics_column.rs | 2 +-
 .../src/subcommands/gs_graphics/store_buffer_graphics_raster.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
index 4779ffb..0f2b39b 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_column.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
diff --git a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
index 171e4b3..759d0ba 100644
--- a/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/store_buffer_graphics_raster.rs
@@ -6,7 +6,7 @@ pub struct Handler;
 
 impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
-        if command.data.len() < 4 {
+        if command.data.len() < 8 {
             context.graphics.buffer_graphics.push(GraphicsCommand::Error("Not enough parameters for buffer graphics".to_owned()));
             return;
         }
-- 
2.43.0


From a7434be7df4d33805df3ff26da283d81193d4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 27/75] fix: decode stored raster graphics with a width that is
 not a multiple of eight

---
 thermal_parser/src/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 010e94f..8d693a9 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -296,7 +296,7 @@ impl GraphicsCommand {
         process_as_bits: bool,
     ) -> GraphicsCommand {
         let bytes_per_layer = if process_as_bits {
-            ((width / 8) as usize * height as usize) + 1
+            (width.div_ceil(8) as usize * height as usize) + 1
         } else {
             (width as usize * height as usize) + 1
         };
-- 
2.43.0


From 0bef6f0b485cd724bfc18b413522d085f2fb141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 28/75] fix: keep the rows of a narrower image layer aligned

---
 thermal_parser/src/graphics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 8d693a9..a1acc4d 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -365,8 +365,10 @@ pub fn merge_image_layers(layers: &Vec<Image>) -> Result<Image, &'static str> {
             return Err("Can't merge image layers with different w and h".into());
         }
 
-        for i in 0..merge_img.pixels.len() {
-            image.pixels[i].blend_foreground(&merge_img.pixels[i]);
+        for (i, pixel) in merge_img.pixels.iter().enumerate() {
+            let row = i / merge_img.w as usize;
+            let col = i % merge_img.w as usize;
+            image.pixels[row * image.w as usize + col].blend_foreground(pixel);
         }
     }
 
-- 
2.43.0


From 5d9f039f68175912eb0c6ce47dfcbdfb5995ff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 29/75] fix: decode stored column graphics in column format

---
 thermal_parser/src/graphics.rs                           | 9 +++++----
 .../gs_graphics/define_download_graphics_column.rs       | 4 ++--
 .../subcommands/gs_graphics/define_nv_graphics_column.rs | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index a1acc4d..30abf2e 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -191,20 +191,21 @@ impl GraphicsCommand {
         flow: ImageFlow,
         data: &[u8],
     ) -> GraphicsCommand {
-        let bytes_per_layer = ((width as usize / 8) * height as usize) + 1;
+        let bytes_per_layer = (height.div_ceil(8) as usize * width as usize) + 1;
 
         //Ensure there are enough bytes to construct the final image
-        if data.len() != (bytes_per_layer + 1) * num_colors as usize {
+        if data.len() != bytes_per_layer * num_colors as usize {
             return GraphicsCommand::Error("Not enough data to parse raster image".into());
         }
 
         let mut image_layers = vec![];
 
-        for layer in 0..=num_colors as usize {
+        for layer in 0..num_colors as usize {
             let layer_start = layer * bytes_per_layer;
+            let layer_end = layer_start + bytes_per_layer;
             let color_number = data[layer_start];
             let color = render_colors.color_for_number(color_number);
-            let image_data = &data[layer_start..bytes_per_layer - 1];
+            let image_data = &data[layer_start + 1..layer_end];
             let raster = column_to_bytes(image_data, width, height);
             let layer = Self::image_from_raster_bytes_single_color(
                 width, height, stretch, color, flow, &raster, false,
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
index 7b62fb4..9155f8e 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_download_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Ram;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
diff --git a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
index 2e4fccf..e74b3e9 100644
--- a/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/define_nv_graphics_column.rs
@@ -8,6 +8,7 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         if command.data.len() < 8 {
             println!("Missing parameters for command");
+            return;
         };
 
         let _a = command.data.get(0).unwrap();
@@ -21,7 +22,7 @@ impl CommandHandler for Handler {
         let storage = ImageRefStorage::Disc;
         let image_ref = ImageRef { kc1, kc2, storage };
 
-        let graphics = GraphicsCommand::image_from_raster_bytes_multi_color(
+        let graphics = GraphicsCommand::image_from_column_bytes_multi_color(
             width,
             height,
             stretch,
@@ -29,7 +30,6 @@ impl CommandHandler for Handler {
             &context.graphics.render_colors,
             ImageFlow::Block,
             &command.data[8..],
-            true,
         );
 
         context.graphics.stored_graphics.insert(image_ref, graphics);
-- 
2.43.0


From 23443090f6153585c6a330026fde135514d71e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 30/75] fix: escape receipt text in html

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 9bc6f3d..68f3000 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -220,11 +220,17 @@ fn span_to_html(
             x_offset + x,
             baseline_offset,
             class_list.join(" "),
-            text.text
+            escape_html(&text.text)
         ),
     )
 }
 
+fn escape_html(text: &str) -> String {
+    text.replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+}
+
 fn color_to_class(color: RGBA, render_colors: &RenderColors, fg: bool) -> &str {
     //Most common color by far
     if color == render_colors.color_1 {
-- 
2.43.0


From 4928db9f0d97efec409c3ad83dbc8551d742ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 31/75] fix: do not substitute template variables in receipt
 text

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 99bd006..933bf18 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -259,7 +259,6 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                 "{{color-3}}",
                 &*context.graphics.render_colors.color_3.as_hex(),
             )
-            .replace("{{content}}", &self.content.join(""))
             .replace(
                 "{{receipt-style}}",
                 &*format!(
@@ -269,7 +268,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     context.graphics.paper_area.y,
                     padding_bottom
                 ),
-            );
+            )
+            //Last, the text of the receipt is not part of the template
+            .replace("{{content}}", &self.content.join(""));
 
         ReceiptHtml { content }
     }
-- 
2.43.0


From 2e3186904a3b8f40b74cb3f9419b746d38447984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 32/75] fix: do not panic on an image without pixels in html

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index 68f3000..c078b17 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -7,6 +7,15 @@ use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
 
 pub fn encode_html_image(image: &Image) -> HtmlRow {
+    //An image without pixels can't be encoded, but it still takes up its height
+    if image.w == 0 || image.h == 0 {
+        return HtmlRow {
+            y: image.y,
+            height: image.h,
+            content: "".to_string(),
+        };
+    }
+
     // Create a buffer to hold the PNG image data
     let mut png_data: Vec<u8> = Vec::new();
     let image_data: Vec<u8> = image.as_rgba_u8();
-- 
2.43.0


From f753ba9275ccc9ebd7321810f9d462b8e1f15213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 33/75] fix: keep the vertical position when no vector graphics
 are rendered

---
 thermal_renderer/src/html_renderer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 933bf18..ba0bf11 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -200,7 +200,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
                     }
                 }
             }
-        } else {
+        } else if !graphics.is_empty() {
             self.push_row(graphics_to_svg(graphics));
         }
     }
-- 
2.43.0


From 11b41f66ac42ae7131e87f0c131b734a3242aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 34/75] fix: do not print over the receipt after it is
 initialized again

---
 thermal_parser/src/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 8944cf0..b544842 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -583,7 +583,11 @@ impl Context {
             self.text = default.text.clone();
             self.barcode = default.barcode.clone();
             self.code2d = default.code2d.clone();
+
+            //The paper does not move back
+            let y = self.graphics.render_area.y;
             self.graphics = default.graphics.clone();
+            self.graphics.render_area.y = y;
         }
     }
 
-- 
2.43.0


From ef89bb8aa9ebe891a6dcf0210fb09ddae1fb48af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 35/75] fix: keep non volatile graphics when initialized

---
 thermal_parser/src/context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index b544842..9f0b1e8 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -1,6 +1,6 @@
 use crate::decoder::{get_codepage, Codepage};
 use crate::graphics;
-use crate::graphics::{GraphicsCommand, ImageRef, RGBA};
+use crate::graphics::{GraphicsCommand, ImageRef, ImageRefStorage, RGBA};
 use crate::text::TextSpan;
 use std::collections::HashMap;
 use std::mem;
@@ -586,8 +586,13 @@ impl Context {
 
             //The paper does not move back
             let y = self.graphics.render_area.y;
+            let mut stored_graphics = mem::take(&mut self.graphics.stored_graphics);
             self.graphics = default.graphics.clone();
             self.graphics.render_area.y = y;
+
+            //Graphics in non volatile memory are kept
+            stored_graphics.retain(|k, _| k.storage == ImageRefStorage::Disc);
+            self.graphics.stored_graphics = stored_graphics;
         }
     }
 
-- 
2.43.0


From f28b7a865441beddb2b80266c65dff37036808fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 36/75] fix: leave page mode when initialized

---
 thermal_parser/src/context.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 9f0b1e8..54b6ff7 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -593,6 +593,9 @@ impl Context {
             //Graphics in non volatile memory are kept
             stored_graphics.retain(|k, _| k.storage == ImageRefStorage::Disc);
             self.graphics.stored_graphics = stored_graphics;
+
+            //Page mode ends
+            self.page_mode = default.page_mode.clone();
         }
     }
 
-- 
2.43.0


From ddb2551dbffa17dc3bdb85e8c58681ddf5a50374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 37/75] fix: advance by the printed height of a rotated page

---
 thermal_parser/src/context.rs    | 9 +++++++++
 thermal_renderer/src/renderer.rs | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 54b6ff7..dd5462d 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -351,6 +351,15 @@ impl PageModeContext {
         }
     }
 
+    //Height of the page once it is rotated back to the standard direction
+    pub fn standard_height(&self) -> u32 {
+        if PageModeContext::should_dimension_swap(&self.direction) {
+            self.page_area.w
+        } else {
+            self.page_area.h
+        }
+    }
+
     fn translate_top_left_to_right(&mut self) {
         let l = &self.logical_area;
         let r = &mut self.render_area;
diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 5696892..85c8ea1 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -279,7 +279,8 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.renderer.render_page(&mut self.context);
 
                         //Advance the y since a page is being rendered
-                        self.context.graphics.render_area.y += self.context.page_mode.page_area.h;
+                        self.context.graphics.render_area.y +=
+                            self.context.page_mode.standard_height();
                         self.context.graphics.render_area.x = 0;
                     }
                     DeviceCommand::ChangePageArea => {
-- 
2.43.0


From 2f7076b0969e1582ea285dbeec0af71229a104e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 38/75] fix: start every page without the area of the previous
 one

---
 thermal_renderer/src/renderer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 85c8ea1..4f699ba 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -268,6 +268,10 @@ impl<'a, Output> Renderer<'a, Output> {
                         self.context.newline(2);
                     }
                     DeviceCommand::BeginPageMode => {
+                        //The page starts out empty, in the standard direction
+                        if let Some(default_context) = &self.context.default {
+                            self.context.page_mode = default_context.page_mode.clone();
+                        }
                         self.context.page_mode.enabled = true;
                         self.renderer.page_begin(&mut self.context);
                     }
-- 
2.43.0


From 5db72cdf11ac08751ed193dfca2951172f9d4596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:33 +0000
Subject: [PATCH 39/75] fix: grow the page by the whole area in every print
 direction

---
 thermal_parser/src/context.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index dd5462d..7b3f8f2 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -263,6 +263,19 @@ impl PageModeContext {
             mem::swap(&mut self.page_area.w, &mut self.page_area.h);
         }
 
+        //Grow the page to fit the logical area, the position of the
+        //render area depends on the final size
+        let max_width = self.logical_area.x + self.logical_area.w;
+        let max_height = self.logical_area.y + self.logical_area.h;
+
+        if should_swap {
+            self.page_area.w = max_height.max(self.page_area.w);
+            self.page_area.h = max_width.max(self.page_area.h);
+        } else {
+            self.page_area.w = max_width.max(self.page_area.w);
+            self.page_area.h = max_height.max(self.page_area.h);
+        }
+
         //Translate logical area to render area
         match self.direction {
             PrintDirection::TopLeft2Right => self.translate_top_left_to_right(),
@@ -275,12 +288,6 @@ impl PageModeContext {
         self.page_area.x = self.render_area.x;
         self.page_area.y = self.render_area.y;
 
-        let render_max_width = self.render_area.x + self.render_area.w;
-        let render_max_height = self.render_area.y + self.render_area.h;
-
-        self.page_area.w = render_max_width.max(self.page_area.w);
-        self.page_area.h = render_max_height.max(self.page_area.h);
-
         (rotation, self.page_area.w, self.page_area.h)
     }
 
-- 
2.43.0


From 2924ee69fb903ddc8a0a69b4de559d1325daf47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:09 +0000
Subject: [PATCH 40/75] fix: a page mode area that grows keeps the page content
 in place

---
 thermal_renderer/src/html_renderer/mod.rs     | 10 ++---
 thermal_renderer/src/image_renderer/mod.rs    | 10 ++---
 .../src/image_renderer/thermal_image.rs       | 37 ++++++++++++++++++-
 3 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index ba0bf11..6094fa7 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -127,7 +127,7 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -141,12 +141,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width)
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height)
-        }
+        self.page_image
+            .expand_page(width, height, &context.page_mode.direction);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index fc8d565..2bc0a3d 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -90,7 +90,7 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn page_area_changed(
         &mut self,
-        _context: &mut Context,
+        context: &mut Context,
         rotation: Rotation,
         width: u32,
         height: u32,
@@ -104,12 +104,8 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
             _ => {}
         }
 
-        if width > self.page_image.width {
-            self.page_image.expand_to_width(width);
-        }
-        if height > self.page_image.get_height() {
-            self.page_image.expand_to_height(height);
-        }
+        self.page_image
+            .expand_page(width, height, &context.page_mode.direction);
     }
 
     fn render_page(&mut self, context: &mut Context) {
diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 71fdada..2132757 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -4,7 +4,7 @@ extern crate png;
 use crate::renderer::DebugProfile;
 use fontdue::layout::CharacterData;
 use std::rc::Rc;
-use thermal_parser::context::Font;
+use thermal_parser::context::{Font, PrintDirection};
 use thermal_parser::graphics::{Image, Rectangle, RGBA};
 use thermal_parser::text::TextSpan;
 
@@ -668,6 +668,41 @@ impl ThermalImage {
         self.width = new_width;
     }
 
+    /// Grow a page rotated for the given print direction.
+    /// The page grows to the right and bottom of its standard direction,
+    /// so that pixels that are already on the page stay in place.
+    pub fn expand_page(&mut self, width: u32, height: u32, direction: &PrintDirection) {
+        let old_width = self.width;
+        let old_height = self.get_height();
+        let new_width = width.max(old_width);
+        let new_height = height.max(old_height);
+
+        let left = match direction {
+            PrintDirection::BottomLeft2Top | PrintDirection::BottomRight2Left => {
+                new_width - old_width
+            }
+            _ => 0,
+        } as usize;
+        let top = match direction {
+            PrintDirection::BottomRight2Left | PrintDirection::TopRight2Bottom => {
+                new_height - old_height
+            }
+            _ => 0,
+        } as usize;
+
+        let mut pixels = vec![self.paper_color; new_width as usize * new_height as usize];
+
+        for y in 0..old_height as usize {
+            let from = y * old_width as usize;
+            let to = (top + y) * new_width as usize + left;
+            pixels[to..to + old_width as usize]
+                .copy_from_slice(&self.bytes[from..from + old_width as usize]);
+        }
+
+        self.bytes = pixels;
+        self.width = new_width;
+    }
+
     pub fn consume_rgb_u8(&mut self) -> (u32, u32, Vec<u8>) {
         let w = self.width;
         let h = self.get_height();
-- 
2.43.0


From 71e9868c43a9b715988bb3a34ea8024443377f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 41/75] fix: keep a token that is directly followed by a quoted
 string

---
 thermal_parser/src/thermal_file.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index a60fbe5..bfd4938 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -158,6 +158,11 @@ pub fn parse_tokens(line: &str) -> Vec<&str> {
             gobble_quoted = true;
             esc_quoted = false;
 
+            //A token directly before the quote ends here
+            if span.0 != span.1 {
+                tokens.push(&line[span.0..span.1])
+            }
+
             //Here we include the first quote
             span.0 = span.1;
             span.1 += 1;
-- 
2.43.0


From c605f35b9bcbbe7fbcb06ce9dbbdd083d7bce668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:04 +0000
Subject: [PATCH 42/75] fix: write text to the thermal format so that it reads
 back as the same bytes

---
 thermal_parser/src/thermal_file.rs | 38 ++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/thermal_file.rs b/thermal_parser/src/thermal_file.rs
index bfd4938..19c8074 100644
--- a/thermal_parser/src/thermal_file.rs
+++ b/thermal_parser/src/thermal_file.rs
@@ -219,8 +219,7 @@ pub fn cmd_to_thermal(cmd: &Command) -> String {
             return "LF \n".to_string();
         }
 
-        let text = String::from_utf8_lossy(data.as_slice());
-        return format!("\"{}\"\n", text);
+        return format!("{}{}\n", explain_command(&commands), explain_text(&data));
     } else if cmd.kind == CommandType::Unknown {
         return format!("'// Unknown command \n {}\n\n", explain_unknown(&data)).to_string();
     }
@@ -295,6 +294,41 @@ pub fn try_string(byte: &u8) -> String {
     }
 }
 
+/// Quotes the readable parts of a text, every other byte is written as hex
+fn explain_text(data: &[u8]) -> String {
+    let mut tokens: Vec<String> = vec![];
+
+    for chunk in data.utf8_chunks() {
+        let mut quoted = String::new();
+
+        for c in chunk.valid().chars() {
+            if c.is_control() {
+                if !quoted.is_empty() {
+                    tokens.push(format!("\"{}\"", quoted));
+                    quoted.clear();
+                }
+                for byte in c.to_string().as_bytes() {
+                    tokens.push(format!("0x{:02X}", byte));
+                }
+            } else {
+                if c == '"' || c == '\\' {
+                    quoted.push('\\');
+                }
+                quoted.push(c);
+            }
+        }
+
+        if !quoted.is_empty() {
+            tokens.push(format!("\"{}\"", quoted));
+        }
+        for byte in chunk.invalid() {
+            tokens.push(format!("0x{:02X}", byte));
+        }
+    }
+
+    tokens.join(" ")
+}
+
 fn explain_unknown(data: &Vec<u8>) -> String {
     if data.len() > 1 {
         let first = &data[0];
-- 
2.43.0


From 483d426d80aaba71fe505d90eba376371a9f7a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 43/75] fix: keep the size and function bytes of a GS ( H
 command

---
 thermal_parser/src/subcommands/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/thermal_parser/src/subcommands/mod.rs b/thermal_parser/src/subcommands/mod.rs
index 3503378..87aefc4 100644
--- a/thermal_parser/src/subcommands/mod.rs
+++ b/thermal_parser/src/subcommands/mod.rs
@@ -18,6 +18,7 @@ pub struct SubCommandHandler {
     capacity: u32,
     accept_data: bool,
     use_m: bool,
+    header: Vec<u8>,
 }
 
 impl SubCommandHandler {
@@ -79,6 +80,7 @@ impl SubCommandHandler {
             sub.commands = Rc::new(data.to_vec());
         }
 
+        self.header = data.to_vec();
         self.accept_data = true;
     }
 }
@@ -143,6 +145,13 @@ impl CommandHandler for SubCommandHandler {
         false
     }
 
+    //The size and function bytes are a part of the command
+    fn get_command_bytes(&self, command: &Command) -> (Vec<u8>, Vec<u8>) {
+        let mut commands = command.commands.to_vec();
+        commands.extend_from_slice(&self.header);
+        (commands, command.data.clone())
+    }
+
     //Returns a subcommand that can be owned and stubs
     fn get_subcommand(&mut self) -> Option<Command> {
         let mut subcommand = None;
@@ -161,6 +170,7 @@ pub fn new(is_large: bool, use_m: bool, commands: Rc<Vec<Command>>) -> Box<SubCo
         capacity: 0,
         accept_data: false,
         use_m,
+        header: vec![],
     })
 }
 
-- 
2.43.0


From a36d930dc5c5cf601ed61cf15102f2dfdf39cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:51 +0000
Subject: [PATCH 44/75] fix: an unmatched CAN does not swallow the byte after
 it

---
 thermal_parser/src/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 7fa0585..dad2763 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -141,6 +141,7 @@ impl Parser {
         //or make a new unknown command or append to the last default command
         if self.command_matches.is_empty() {
             let mut new_cmd = None;
+            let mut reparse = false;
 
             if self.command_buffer.len() > 0
                 && self
@@ -152,6 +153,15 @@ impl Parser {
                 let mut unknown_command = self.cmd_set.unknown.clone();
                 unknown_command.data = self.command_buffer.clone();
                 new_cmd = Some(unknown_command);
+            } else if self.command_buffer.len() > 1 {
+                //The bytes that did not become a command are text,
+                //the current byte may be the start of another command
+                self.command_buffer.pop();
+
+                let mut text_command = self.cmd_set.default.clone();
+                text_command.data = self.command_buffer.clone();
+                new_cmd = Some(text_command);
+                reparse = true;
             } else if self.current_command_is_default {
                 if let Some(cmd) = &mut self.current_command {
                     cmd.push(*byte);
@@ -172,7 +182,10 @@ impl Parser {
                     //new_command has become the previous command after the swap
                     self.emit_command(new_cmd.unwrap());
                 }
-                return;
+            }
+
+            if reparse {
+                self.parse(byte);
             }
 
             return;
-- 
2.43.0


From ee366b1521de40745bffd2d454ec764fd881dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 45/75] fix: refuse UPC-E for product codes that cannot be
 compressed

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index eaafe46..6de5732 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -183,7 +183,7 @@ impl UPCE {
         // characters of the product code, followed by the third character of the
         // manufacturer code. The product code must be 00000 to 00999.
         if manu[2..] == [0, 0, 0] || manu[2..] == [1, 0, 0] || manu[2..] == [2, 0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00999.",
                 ));
@@ -199,9 +199,9 @@ impl UPCE {
         // the last two characters of the product code, followed by the digit "3".
         // The product code must be 00000 to 00099.
         if manu[3..] == [0, 0] {
-            if prod[0] != 0 && prod[1] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 {
                 return Err(String::from(
-                    "Invalid UPCA: Product code can not be greater than 00999.",
+                    "Invalid UPCA: Product code can not be greater than 00099.",
                 ));
             }
 
@@ -215,7 +215,7 @@ impl UPCE {
         // the last character of the product code, followed by the digit "4".
         // The product code must be 00000 to 00009.
         if manu[4..] == [0] {
-            if prod[0] != 0 && prod[1] != 0 && prod[2] != 0 && prod[3] != 0 {
+            if prod[0] != 0 || prod[1] != 0 || prod[2] != 0 || prod[3] != 0 {
                 return Err(String::from(
                     "Invalid UPCA: Product code can not be greater than 00009.",
                 ));
-- 
2.43.0


From 8907901e37d711d959aa4f3f09dacd46fe7cbe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 46/75] fix: characters of code pages 850 and 865

---
 thermal_parser/src/decoder/codepage_2_pc850.rs | 2 +-
 thermal_parser/src/decoder/codepage_5_pc865.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/thermal_parser/src/decoder/codepage_2_pc850.rs b/thermal_parser/src/decoder/codepage_2_pc850.rs
index a9d331e..f3ed403 100644
--- a/thermal_parser/src/decoder/codepage_2_pc850.rs
+++ b/thermal_parser/src/decoder/codepage_2_pc850.rs
@@ -7,7 +7,7 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å", 
         "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ", 
         "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "»", 
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "╜", "╛", "┐", 
+        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐", 
         "└", "┴", "┬", "├", "─", "┼", "ã", "Ã", "╚", "╔", "╩", "╦", "╠", "═", "╬", "¤", 
         "ð", "Ð", "Ê", "Ë", "È", "ı", "Í", "Î", "Ï", "┘", "┌", "█", "▄", "¦", "Ì", "▀", 
         "Ó", "ß", "Ô", "Ò", "õ", "Õ", "µ", "þ", "Þ", "Ú", "Û", "Ù", "ý", "Ý", "¯", "´", 
diff --git a/thermal_parser/src/decoder/codepage_5_pc865.rs b/thermal_parser/src/decoder/codepage_5_pc865.rs
index e6a29b3..65f12b9 100644
--- a/thermal_parser/src/decoder/codepage_5_pc865.rs
+++ b/thermal_parser/src/decoder/codepage_5_pc865.rs
@@ -5,9 +5,9 @@ pub static TABLE: (&str, &[&'static str; 128]) = (
     "PC865: Nordic",
     &[
         "Ç", "ü", "é", "â", "ä", "à", "å", "ç", "ê", "ë", "è", "ï", "î", "ì", "Ä", "Å",
-        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "×", "ƒ",
-        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "®", "¬", "½", "¼", "¡", "«", "¤",
-        "░", "▒", "▓", "│", "┤", "Á", "Â", "À", "©", "╣", "║", "╗", "╝", "¢", "¥", "┐",
+        "É", "æ", "Æ", "ô", "ö", "ò", "û", "ù", "ÿ", "Ö", "Ü", "ø", "£", "Ø", "₧", "ƒ",
+        "á", "í", "ó", "ú", "ñ", "Ñ", "ª", "º", "¿", "⌐", "¬", "½", "¼", "¡", "«", "¤",
+        "░", "▒", "▓", "│", "┤", "╡", "╢", "╖", "╕", "╣", "║", "╗", "╝", "╜", "╛", "┐",
         "└", "┴", "┬", "├", "─", "┼", "╞", "╟", "╚","╔", "╩", "╦", "╠", "═", "╬", "╧",
         "╨", "╤", "╥", "╙", "╘", "╒", "╓", "╫", "╪","┘", "┌", "█", "▄", "▌", "▐", "▀",
         "α", "ß", "Γ", "π", "Σ", "σ", "µ", "τ", "Φ","Θ", "Ω", "δ", "∞", "φ", "ε", "∩",
-- 
2.43.0


From 4bfb5bd093cb8e010320fc0790ed60f6a8ade753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:24 +0000
Subject: [PATCH 47/75] fix: PDF417 ratio error correction picks the level of
 the first range that fits

---
 .../gs_code2d/pdf417_set_correction_level.rs  | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
index b6ec50c..9b1e496 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_set_correction_level.rs
@@ -16,26 +16,19 @@ impl CommandHandler for Handler {
             let a = codeword_count as f32 * n as f32 * 0.01;
             if a < 4f32 {
                 level = 1
-            }
-            if a < 11f32 {
+            } else if a < 11f32 {
                 level = 2
-            }
-            if a < 21f32 {
+            } else if a < 21f32 {
                 level = 3
-            }
-            if a < 46f32 {
+            } else if a < 46f32 {
                 level = 4
-            }
-            if a < 101f32 {
+            } else if a < 101f32 {
                 level = 5
-            }
-            if a < 201f32 {
+            } else if a < 201f32 {
                 level = 6
-            }
-            if a < 401f32 {
+            } else if a < 401f32 {
                 level = 7
-            }
-            if a > 400f32 {
+            } else {
                 level = 8
             }
         }
-- 
2.43.0


From e38f7c3bfe7cd28d94a97d86cc122e17bf12a536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 48/75] fix: a sequence the stream ends in is unknown, not
 dropped

---
 thermal_parser/src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index dad2763..35373a0 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -41,6 +41,17 @@ impl Parser {
             self.emit_command(new_cmd_unwrapped);
         }
 
+        //The stream may end inside of a sequence that has not become a command
+        if let Some(first) = self.command_buffer.first() {
+            let mut cmd = if self.cmd_set.unknown.commands.contains(first) {
+                self.cmd_set.unknown.clone()
+            } else {
+                self.cmd_set.default.clone()
+            };
+            cmd.data = self.command_buffer.clone();
+            self.emit_command(cmd);
+        }
+
         self.emit_command(self.cmd_set.end_parsing.clone());
 
         self.match_depth = 0;
-- 
2.43.0


From 10095709e4096be1c3390b6facdf399d62d7eee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 49/75] fix: widening a long receipt takes time in proportion
 to its length

---
 .../src/image_renderer/thermal_image.rs       | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 2132757..9dbf84a 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -646,25 +646,18 @@ impl ThermalImage {
         let left = ((new_width - old_width) as f32 / 2.0).floor() as u32;
         let right = new_width - (left + old_width);
 
-        self.bytes
-            .try_reserve((height as usize * new_width as usize - self.bytes.len()) as usize)
-            .unwrap();
-
-        let mut insert_idx = 0;
-
         let left_bytes = vec![self.paper_color; left as usize];
         let right_bytes = vec![self.paper_color; right as usize];
+        let mut widened = Vec::with_capacity(height as usize * new_width as usize);
 
-        for _ in 0..height {
-            self.bytes
-                .splice(insert_idx..insert_idx, left_bytes.clone());
-            insert_idx += left as usize + old_width as usize;
-
-            self.bytes
-                .splice(insert_idx..insert_idx, right_bytes.clone());
-            insert_idx += right as usize;
+        for y in 0..height as usize {
+            let row = y * old_width as usize;
+            widened.extend_from_slice(&left_bytes);
+            widened.extend_from_slice(&self.bytes[row..row + old_width as usize]);
+            widened.extend_from_slice(&right_bytes);
         }
 
+        self.bytes = widened;
         self.width = new_width;
     }
 
-- 
2.43.0


From e81fbdeeb54c190d6d154f70917f5ee8dfa3836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 50/75] fix: report commands with an unknown function instead
 of dropping them

---
 thermal_parser/src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/thermal_parser/src/parser.rs b/thermal_parser/src/parser.rs
index 35373a0..3cd2344 100644
--- a/thermal_parser/src/parser.rs
+++ b/thermal_parser/src/parser.rs
@@ -87,6 +87,14 @@ impl Parser {
                 subcommand.commands = Rc::new(expanded_cmds);
 
                 self.captured_commands.push(subcommand);
+            } else {
+                //There is no such function
+                let (mut bytes, data) = cmd.handler.get_command_bytes(&cmd);
+                bytes.extend(data);
+
+                let mut unknown_command = self.cmd_set.unknown.clone();
+                unknown_command.data = bytes;
+                self.captured_commands.push(unknown_command);
             }
         } else {
             self.captured_commands.push(cmd);
-- 
2.43.0


From 0a45ab45637832824204781dadfe01146d1746da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 51/75] fix: flipping upside down text does not grow a page
 beyond its area

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 9dbf84a..32de9ff 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -424,6 +424,11 @@ impl ThermalImage {
             return;
         };
 
+        //Only growing canvases grow
+        if !self.auto_grow && y + height > self.get_height() {
+            return;
+        }
+
         self.expand_to_height(y + height);
 
         // Vector to store rows
-- 
2.43.0


From 08692e4ceb017c1656601e03c0df27e1c4df4876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:09 +0000
Subject: [PATCH 52/75] fix: printing an unsupported 2D code does not print the
 stored QR code

---
 .../src/subcommands/gs_code2d/aztec_print.rs         | 12 +++---------
 .../src/subcommands/gs_code2d/composite_print.rs     | 12 +++---------
 .../src/subcommands/gs_code2d/datamatrix_print.rs    | 12 +++---------
 .../src/subcommands/gs_code2d/gs1_print.rs           | 12 +++---------
 .../src/subcommands/gs_code2d/maxi_print.rs          | 12 +++---------
 .../src/subcommands/gs_code2d/pdf417_print.rs        | 12 +++---------
 6 files changed, 18 insertions(+), 54 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs b/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
index 42ef808..a4fc7dc 100644
--- a/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/aztec_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/subcommands/gs_code2d/composite_print.rs b/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
index a3d6d84..5555c6c 100644
--- a/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/composite_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs b/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
index 67951c4..c36d7dd 100644
--- a/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/datamatrix_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs b/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
index b0124bc..979357f 100644
--- a/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/gs1_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs b/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
index 002f63c..1201bf8 100644
--- a/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/maxi_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
diff --git a/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs b/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
index e6b4533..9b75cae 100644
--- a/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/pdf417_print.rs
@@ -1,17 +1,11 @@
-use crate::{command::*, context::*, graphics::*};
+use crate::command::*;
 
 #[derive(Clone)]
 pub struct Handler;
 
 impl CommandHandler for Handler {
-    fn get_graphics(&self, _command: &Command, context: &Context) -> Option<GraphicsCommand> {
-        match &context.code2d.symbol_storage {
-            Some(code2d) => {
-                return Some(GraphicsCommand::Code2D(code2d.clone()));
-            }
-            None => return None,
-        }
-    }
+    //TODO No support for this symbol yet. The symbol storage only
+    //holds QR codes, which must not be printed in place of it
 }
 
 pub fn new() -> Command {
-- 
2.43.0


From bcb04ec94d59ad2ed436b8eefd8e0ee0522ffabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 53/75] fix: micro QR codes whose data reaches into the last
 half codeword are encoded

---
 .../src/subcommands/gs_code2d/qr_store.rs     | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
index 0e159be..8926191 100644
--- a/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
+++ b/thermal_parser/src/subcommands/gs_code2d/qr_store.rs
@@ -2,7 +2,7 @@ extern crate qr_code;
 
 use crate::context::QrModel::Micro;
 use crate::{command::*, context::*, graphics};
-use qr_code::{EcLevel, QrCode, Version};
+use qr_code::{bits::Bits, EcLevel, QrCode, Version};
 
 #[derive(Clone)]
 pub struct Handler;
@@ -62,7 +62,22 @@ impl CommandHandler for Handler {
                 QrModel::Model2 => Version::Normal(v),
                 Micro => Version::Micro(v),
             };
-            QrCode::with_version(&data, version, error_correction)
+
+            let mut bits = Bits::new(version);
+            bits.push_optimal_data(&data)?;
+
+            //Micro versions 1 and 3 end in half a codeword, which the encoder can't
+            //pad once the data reaches into it
+            if let Version::Micro(n) = version {
+                let max_len = bits.max_len(error_correction)?;
+                let end = bits.len() + n as usize * 2 + 1;
+                if max_len % 8 != 0 && end > max_len - 4 && bits.len() < max_len {
+                    bits.push_number_checked(max_len - bits.len(), 0)?;
+                }
+            }
+
+            bits.push_terminator(error_correction)?;
+            QrCode::with_bits(bits, error_correction)
         };
 
         let mut result = encode(min_modules);
-- 
2.43.0


From 01714d99f2f07316112f7441f2caeda64902cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 54/75] fix: black white invert follows the lowest bit, as the
 other switches do

---
 thermal_parser/src/commands/set_black_white_invert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/set_black_white_invert.rs b/thermal_parser/src/commands/set_black_white_invert.rs
index af4b01d..804fc3b 100644
--- a/thermal_parser/src/commands/set_black_white_invert.rs
+++ b/thermal_parser/src/commands/set_black_white_invert.rs
@@ -7,7 +7,9 @@ impl CommandHandler for Handler {
     fn apply_context(&self, command: &Command, context: &mut Context) {
         let n = *command.data.get(0).unwrap_or(&0u8);
 
-        if n == 1 {
+        let invert = (n & 0x00000001) == 1;
+
+        if invert {
             context.text.background_color = context.graphics.render_colors.color_1;
             context.text.color = context.graphics.render_colors.paper_color;
         } else {
@@ -15,7 +17,7 @@ impl CommandHandler for Handler {
             context.text.color = context.graphics.render_colors.color_1;
         }
 
-        context.text.invert = n == 1;
+        context.text.invert = invert;
     }
 }
 
-- 
2.43.0


From c749b3af6a5839fd40a06bbfd61828275677ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 55/75] fix: codes are not inverted, and have the color of the
 receipt in html too

---
 thermal_parser/src/context.rs                      | 12 ++++++++++++
 thermal_renderer/src/html_renderer/mod.rs          |  6 ++++--
 thermal_renderer/src/html_renderer/thermal_html.rs | 10 +++++++---
 thermal_renderer/src/image_renderer/mod.rs         |  5 +++--
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/context.rs b/thermal_parser/src/context.rs
index 7b3f8f2..91421c6 100644
--- a/thermal_parser/src/context.rs
+++ b/thermal_parser/src/context.rs
@@ -106,6 +106,18 @@ pub struct TextContext {
     pub tabs: Vec<u8>,
 }
 
+impl TextContext {
+    /// The color of everything that is printed in the text color without
+    /// being text, inverting black and white only affects characters
+    pub fn graphics_color(&self) -> RGBA {
+        if self.invert {
+            self.background_color
+        } else {
+            self.color
+        }
+    }
+}
+
 #[derive(Clone, Debug)]
 pub struct RenderColors {
     pub paper_color: RGBA,
diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 6094fa7..cca0dbd 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -188,16 +188,18 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn render_graphics(&mut self, context: &mut Context, graphics: &Vec<VectorGraphic>) {
+        let color = context.text.graphics_color();
+
         if context.page_mode.enabled {
             for graphic in graphics {
                 match graphic {
                     VectorGraphic::Rectangle(rectangle) => {
-                        self.page_image.put_rect(rectangle, &context.text.color);
+                        self.page_image.put_rect(rectangle, &color);
                     }
                 }
             }
         } else if !graphics.is_empty() {
-            self.push_row(graphics_to_svg(graphics));
+            self.push_row(graphics_to_svg(graphics, &color));
         }
     }
 
diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index c078b17..d5a23f4 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -42,7 +42,7 @@ pub fn encode_html_image(image: &Image) -> HtmlRow {
     }
 }
 
-pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
+pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>, color: &RGBA) -> HtmlRow {
     if graphics.is_empty() {
         return HtmlRow::empty();
     }
@@ -71,8 +71,12 @@ pub fn graphics_to_svg(graphics: &Vec<VectorGraphic>) -> HtmlRow {
                 height = height.max(y + rectangle.h);
 
                 svg.push(format!(
-                    "<rect width='{}' height='{}' x='{}' y='{}' fill='black' />",
-                    rectangle.w, rectangle.h, x, y
+                    "<rect width='{}' height='{}' x='{}' y='{}' fill='{}' />",
+                    rectangle.w,
+                    rectangle.h,
+                    x,
+                    y,
+                    color.as_hex()
                 ));
             }
         }
diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index 2bc0a3d..d90217c 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -164,14 +164,15 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
 
     fn render_graphics(&mut self, context: &mut Context, graphics: &Vec<VectorGraphic>) {
         let page = context.page_mode.enabled;
+        let color = context.text.graphics_color();
 
         for graphic in graphics {
             match graphic {
                 VectorGraphic::Rectangle(rectangle) => {
                     if page {
-                        self.page_image.put_rect(rectangle, &context.text.color);
+                        self.page_image.put_rect(rectangle, &color);
                     } else {
-                        self.paper_image.put_rect(rectangle, &context.text.color);
+                        self.paper_image.put_rect(rectangle, &color);
                     }
                 }
             }
-- 
2.43.0


From 8614ef0a1bd3622d1758e1ed0f8487db63a4674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 56/75] fix: rows of html receipts above the end of the
 previous row are placed there

---
 thermal_renderer/resources/templates/thermal.html |  2 ++
 thermal_renderer/src/html_renderer/mod.rs         | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index d618b34..99da6a0 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -31,6 +31,8 @@
             margin:0;
             padding: 0;
             position: relative;
+            /* keeps the margins around rows without height apart */
+            display: flow-root;
         }
 
         p span, p .img, p .gfx {
diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index cca0dbd..c694595 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -34,6 +34,7 @@ pub struct ReceiptHtml {
 
 pub struct HtmlRenderer {
     pub last_y: u32,
+    pub max_y: u32,
     pub content: Vec<String>,
     pub template: String,
     pub page_image: ThermalImage,
@@ -60,6 +61,7 @@ impl HtmlRenderer {
     pub fn new() -> Self {
         Self {
             last_y: 0,
+            max_y: 0,
             content: vec![],
             template: TEMPLATE.to_string(),
             page_image: ThermalImage::new(0),
@@ -81,13 +83,15 @@ impl HtmlRenderer {
     }
 
     fn push_row(&mut self, row: HtmlRow) {
+        //A row can start above the end of the last one
         self.content.push(format!(
             "<p style='height: {}px; margin-top: {}px'>{}</p>",
             row.height,
-            row.y.saturating_sub(self.last_y),
+            row.y as i64 - self.last_y as i64,
             row.content
         ));
         self.last_y = row.y + row.height;
+        self.max_y = self.max_y.max(self.last_y);
     }
 }
 
@@ -111,7 +115,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
         //We keep track of the last y so that we can render things
         //from top to bottom in the html flow instead of having
         //every element be position absolute
-        self.last_y = context.get_y();
+        self.last_y = 0;
+        self.max_y = 0;
 
         self.content.clear();
         self.push_row(HtmlRow {
@@ -237,7 +242,8 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        let padding_bottom = context.get_y().saturating_sub(self.last_y);
+        //The last row does not have to be the lowest one
+        let padding_bottom = self.max_y.max(context.get_y()) - self.last_y;
 
         let content = self
             .template
-- 
2.43.0


From 87cfe0bb8bd51c4639aa90de62c966f2930a5a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 57/75] fix: letters of html receipts can be stretched by any
 two factors, upside down too

---
 .../resources/templates/thermal.html          | 52 ++++++++-----------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 99da6a0..937e8aa 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -66,38 +66,28 @@
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
 
-        /* Conflicts with scaling, need to figure out a solution */
-        .upd { transform: scale(1, -1); }
-
-        .str { transform-origin: top left; }
-
-        .w2{ transform: scaleX(2); }
-        .h2{ transform: scaleY(2); }
-        .w2.h2{ transform: scale(2); }
-
-        .w3{ transform: scaleX(3); }
-        .h3{ transform: scaleY(3); }
-        .w3.h3{ transform: scale(3); }
-
-        .w4{ transform: scaleX(4); }
-        .h4{ transform: scaleY(4); }
-        .w4.h4{ transform: scale(4); }
-
-        .w5{ transform: scaleX(5); }
-        .h5{ transform: scaleY(5); }
-        .w5.h5{ transform: scale(5); }
-
-        .w6{ transform: scaleX(6); }
-        .h6{ transform: scaleY(6); }
-        .w6.h6{ transform: scale(6); }
-
-        .w7{ transform: scaleX(7); }
-        .h7{ transform: scaleY(7); }
-        .w7.h7{ transform: scale(7); }
+        .str, .upd {
+            transform-origin: top left;
+            transform: scale(var(--w, 1), var(--h, 1)) var(--flip, scale(1));
+        }
 
-        .w8{ transform: scaleX(8); }
-        .h8{ transform: scaleY(8); }
-        .w8.h8{ transform: scale(8); }
+        .upd { --flip: translateY(100%) scaleY(-1); }
+
+        .w2{ --w: 2; }
+        .w3{ --w: 3; }
+        .w4{ --w: 4; }
+        .w5{ --w: 5; }
+        .w6{ --w: 6; }
+        .w7{ --w: 7; }
+        .w8{ --w: 8; }
+
+        .h2{ --h: 2; }
+        .h3{ --h: 3; }
+        .h4{ --h: 4; }
+        .h5{ --h: 5; }
+        .h6{ --h: 6; }
+        .h7{ --h: 7; }
+        .h8{ --h: 8; }
 
         img { display: block; }
     </style>
-- 
2.43.0


From e7134f12be576f73cb0417ba31e2a1ddad86f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 58/75] fix: html receipts keep the underline of struck through
 text

---
 thermal_renderer/resources/templates/thermal.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 937e8aa..1f33559 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -65,6 +65,7 @@
         .u{ text-decoration: underline; }
         .s{ text-decoration: line-through; }
         .s, .sd{ text-decoration: line-through; }
+        .u.s{ text-decoration: underline line-through; }
 
         .str, .upd {
             transform-origin: top left;
-- 
2.43.0


From 0ef33d92c96ecc34b8011b1381dbe192d865330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 59/75] fix: html receipts keep letters in the order they are
 printed in

---
 thermal_renderer/resources/templates/thermal.html | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thermal_renderer/resources/templates/thermal.html b/thermal_renderer/resources/templates/thermal.html
index 1f33559..7df0fbe 100644
--- a/thermal_renderer/resources/templates/thermal.html
+++ b/thermal_renderer/resources/templates/thermal.html
@@ -43,6 +43,7 @@
             display: block;
             vertical-align: text-bottom;
             white-space: pre;
+            unicode-bidi: bidi-override;
             color: {{color-1}};
             background-color: transparent;
         }
-- 
2.43.0


From 99e010caa433a08f706017ddf257c309b2daac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 60/75] fix: control characters take up a cell in html
 receipts, as in images

---
 thermal_renderer/src/html_renderer/thermal_html.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/html_renderer/thermal_html.rs b/thermal_renderer/src/html_renderer/thermal_html.rs
index d5a23f4..7418014 100644
--- a/thermal_renderer/src/html_renderer/thermal_html.rs
+++ b/thermal_renderer/src/html_renderer/thermal_html.rs
@@ -239,7 +239,9 @@ fn span_to_html(
 }
 
 fn escape_html(text: &str) -> String {
-    text.replace('&', "&amp;")
+    //Control characters are printed as blank cells, html drops them or breaks the line
+    text.replace(|c: char| c.is_ascii_control(), " ")
+        .replace('&', "&amp;")
         .replace('<', "&lt;")
         .replace('>', "&gt;")
 }
-- 
2.43.0


From b9ba00b07218120cda508d50b9a3d55bcd86c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 61/75] fix: the length of html receipts of jobs that end in
 page mode

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index c694595..6c78790 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -242,8 +242,9 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
     }
 
     fn end_render(&mut self, context: &mut Context) -> ReceiptHtml {
-        //The last row does not have to be the lowest one
-        let padding_bottom = self.max_y.max(context.get_y()) - self.last_y;
+        //The last row does not have to be the lowest one, and the
+        //job does not have to leave page mode
+        let padding_bottom = self.max_y.max(context.graphics.render_area.y) - self.last_y;
 
         let content = self
             .template
-- 
2.43.0


From dda4276f007c29dd48d49e68e6f90ba9f2722170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 62/75] fix: draw no debug border around an empty page or image

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 32de9ff..023eb44 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -187,6 +187,11 @@ impl ThermalImage {
     }
 
     pub fn draw_border(bytes: &mut Vec<RGBA>, width: u32, height: u32, color: &RGBA) {
+        //There is nothing to draw a border around
+        if width == 0 || height == 0 {
+            return;
+        }
+
         let bot_left = ((height - 1) * width) as usize;
 
         // Top and bottom border
-- 
2.43.0


From 5cc1d097cc2d24c20d06ac01176a155a39031829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 63/75] fix: a tab at a tab stop moves to the next one

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 4f699ba..e9ecdd1 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -485,7 +485,7 @@ impl<'a, Output> Renderer<'a, Output> {
                 let current_x = self.context.get_x();
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
-                    if current_tab_pos >= current_x {
+                    if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-- 
2.43.0


From 40e7433a5adb2a7d5314a520c5dd137149444926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 64/75] fix: tab stops in page mode are counted from the start
 of the print area

---
 thermal_renderer/src/renderer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index e9ecdd1..7d60bfb 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -482,7 +482,10 @@ impl<'a, Output> Renderer<'a, Output> {
 
             //Tabs have a special behavior
             if word.text.eq("\t") {
-                let current_x = self.context.get_x();
+                let current_x = self
+                    .context
+                    .get_x()
+                    .saturating_sub(self.context.get_base_x());
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
                     if current_tab_pos > current_x {
-- 
2.43.0


From 40c96c8d58ee1c0407111096b3dd6c0028e8339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 65/75] fix: print UPC A numbers as UPC A, refuse what is no
 digit in place of a check digit

---
 thermal_parser/src/commands/barcode.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 61f8341..eeeb1cf 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -112,6 +112,16 @@ impl BarcodeHandler {
     }
 }
 
+/// The check digit is always calculated, a digit that was sent in
+/// its place is dropped
+fn without_check_digit(data: &str, length: usize) -> &str {
+    if data.ends_with(|c: char| c.is_ascii_digit()) {
+        data.get(..length).unwrap_or(data)
+    } else {
+        data
+    }
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -190,7 +200,7 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Ean13 => {
-                let data_sp = data.get(..12).unwrap_or(data);
+                let data_sp = without_check_digit(data, 12);
                 return match EAN13::new(data_sp.to_string()) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
@@ -203,7 +213,9 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::UpcA => {
-                return match UPCA::new(data.to_string()) {
+                //A UPC A number is an EAN 13 number that starts with 0
+                let data_sp = format!("0{}", without_check_digit(data, 11));
+                return match UPCA::new(data_sp) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From dea52a68a3ea310c82d726f8d1fd7c1e1efee144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 66/75] fix: refuse UPC E data with a wrong check digit

---
 thermal_parser/src/utils/barcodes/upce.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/utils/barcodes/upce.rs b/thermal_parser/src/utils/barcodes/upce.rs
index 6de5732..5453552 100644
--- a/thermal_parser/src/utils/barcodes/upce.rs
+++ b/thermal_parser/src/utils/barcodes/upce.rs
@@ -90,7 +90,7 @@ impl UPCE {
 
     // Takes 7 or 8 bytes
     // When 7 bytes, the checksum is calculated after decompression
-    // When 8 bytes, we assume the checksum is correct and still make
+    // When 8 bytes, the checksum has to be correct and we still make
     // the round trip to upc_a and back to upc_e
     fn from_upc_e(upc_e: &[u8]) -> Result<UPCE, String> {
         if upc_e.len() < 7 || upc_e.len() > 8 {
@@ -158,6 +158,12 @@ impl UPCE {
             ));
         }
 
+        if upc_a[11] != calculate_checkdigit(&upc_a[..11]) {
+            return Err(String::from(
+                "Invalid UPCA: The check digit is not correct.",
+            ));
+        }
+
         //Number system
         let nsys = upc_a[0];
 
-- 
2.43.0


From cb3760c447eab142de8a9a0ffb14e063bc050a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 67/75] fix: draw B and C of a Codabar with their own patterns

---
 thermal_parser/src/commands/barcode.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index eeeb1cf..563c15a 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -157,7 +157,17 @@ impl CommandHandler for BarcodeHandler {
                 };
             }
             BarcodeType::Nw7Codabar => {
-                return match Codabar::new(data.to_string()) {
+                //barcoders has the patterns of B and C the wrong way round
+                let swapped: String = data
+                    .chars()
+                    .map(|c| match c {
+                        'B' => 'C',
+                        'C' => 'B',
+                        _ => c,
+                    })
+                    .collect();
+
+                return match Codabar::new(swapped) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(data.to_string(), context),
-- 
2.43.0


From c21cc8117f7eb77f0583462541c8b67492f0aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 68/75] fix: print stored graphics in the size the print
 command asks for

---
 thermal_parser/src/graphics.rs                | 28 +++++++++++++++++++
 .../gs_graphics/print_download_graphics.rs    |  6 +++-
 .../gs_graphics/print_nv_graphic.rs           |  6 +++-
 3 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/thermal_parser/src/graphics.rs b/thermal_parser/src/graphics.rs
index 30abf2e..4d7d24f 100644
--- a/thermal_parser/src/graphics.rs
+++ b/thermal_parser/src/graphics.rs
@@ -151,9 +151,37 @@ impl Image {
 
         rgb_bytes
     }
+
+    /// Copies every dot in the x and y direction
+    pub fn scaled(&self, scale_x: u32, scale_y: u32) -> Image {
+        let mut image = self.clone();
+        image.w = self.w * scale_x;
+        image.h = self.h * scale_y;
+        image.pixels = Vec::with_capacity(image.w as usize * image.h as usize);
+
+        for y in 0..image.h {
+            for x in 0..image.w {
+                let index = (y / scale_y) as usize * self.w as usize + (x / scale_x) as usize;
+                image.pixels.push(self.pixels[index]);
+            }
+        }
+
+        image
+    }
 }
 
 impl GraphicsCommand {
+    /// Stored images are printed in normal or double width and height
+    pub fn for_print(&self, width: Option<&u8>, height: Option<&u8>) -> GraphicsCommand {
+        let scale = |n: Option<&u8>| if n == Some(&2) { 2 } else { 1 };
+
+        match (self, scale(width), scale(height)) {
+            (_, 1, 1) => self.clone(),
+            (GraphicsCommand::Image(image), x, y) => GraphicsCommand::Image(image.scaled(x, y)),
+            _ => self.clone(),
+        }
+    }
+
     /// Parses column format into a single GraphicsCommand(Image).
     ///
     /// GraphicsCommand(Error) can also be returned from this function
diff --git a/thermal_parser/src/subcommands/gs_graphics/print_download_graphics.rs b/thermal_parser/src/subcommands/gs_graphics/print_download_graphics.rs
index 251e3a1..8929be3 100644
--- a/thermal_parser/src/subcommands/gs_graphics/print_download_graphics.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/print_download_graphics.rs
@@ -6,7 +6,11 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         if let Some(img_ref) = ImageRef::from_data(&command.data, ImageRefStorage::Ram) {
-            return context.graphics.stored_graphics.get(&img_ref).cloned();
+            return context
+                .graphics
+                .stored_graphics
+                .get(&img_ref)
+                .map(|g| g.for_print(command.data.get(2), command.data.get(3)));
         }
         None
     }
diff --git a/thermal_parser/src/subcommands/gs_graphics/print_nv_graphic.rs b/thermal_parser/src/subcommands/gs_graphics/print_nv_graphic.rs
index 83c3a75..30e7760 100644
--- a/thermal_parser/src/subcommands/gs_graphics/print_nv_graphic.rs
+++ b/thermal_parser/src/subcommands/gs_graphics/print_nv_graphic.rs
@@ -6,7 +6,11 @@ pub struct Handler;
 impl CommandHandler for Handler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         if let Some(img_ref) = ImageRef::from_data(&command.data, ImageRefStorage::Disc) {
-            return context.graphics.stored_graphics.get(&img_ref).cloned();
+            return context
+                .graphics
+                .stored_graphics
+                .get(&img_ref)
+                .map(|g| g.for_print(command.data.get(2), command.data.get(3)));
         }
         None
     }
-- 
2.43.0


From 852c94e25168370c3aadae7668a1dc3e8a455cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 69/75] fix: read function characters, shifts and doubled
 braces of CODE128 data

---
 thermal_parser/src/commands/barcode.rs | 87 +++++++++++++++++++++++---
 1 file changed, 80 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 563c15a..1e3f301 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -122,6 +122,84 @@ fn without_check_digit(data: &str, length: usize) -> &str {
     }
 }
 
+/// Code sets and functions of code128 data are marked with a brace, a brace
+/// itself is doubled. Functions are the characters barcoders has for them.
+fn code128_chars(data: &str) -> Vec<char> {
+    let mut unmarked = vec![];
+    let mut chars = data.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        let marked = match (c, chars.peek()) {
+            ('{', Some('A')) => Some('À'),
+            ('{', Some('B')) => Some('Ɓ'),
+            ('{', Some('C')) => Some('Ć'),
+            ('{', Some('1')) => Some('Ź'),
+            ('{', Some('2')) => Some('ź'),
+            ('{', Some('3')) => Some('Ż'),
+            ('{', Some('4')) => Some('ż'),
+            ('{', Some('S')) => Some('Ž'),
+            ('{', Some('{')) => Some('{'),
+            _ => None,
+        };
+
+        if marked.is_some() {
+            chars.next();
+        }
+
+        unmarked.push(marked.unwrap_or(c));
+    }
+
+    unmarked
+}
+
+/// Returns code128 data in the format of barcoders together with the
+/// human readable text
+fn code128_data(data: &str) -> (String, String) {
+    //There is no such character, barcoders reports it
+    const INVALID: char = '\u{fffd}';
+
+    let mut symbol = String::new();
+    let mut text = String::new();
+    let mut set = ' ';
+    let mut half_pair = false;
+    let mut chars = code128_chars(data).into_iter();
+
+    while let Some(c) = chars.next() {
+        //Nothing can be in between the two digits of a pair
+        if half_pair && !c.is_ascii_digit() {
+            symbol.push(INVALID);
+        }
+        half_pair = set == 'Ć' && c.is_ascii_digit() && !half_pair;
+
+        match c {
+            'À' | 'Ɓ' | 'Ć' => {
+                set = c;
+                symbol.push(c);
+            }
+            'Ź' | 'ź' | 'Ż' | 'ż' => symbol.push(c),
+            'Ž' => {
+                //Shifted characters have the value of another one in the selected set
+                let shifted = chars.next().unwrap_or(INVALID);
+                text.push(shifted);
+                symbol.push(c);
+                symbol.push(match (set, shifted) {
+                    ('À' | 'Ɓ', ' '..='_') => shifted,
+                    ('À', '`'..='\x7f') => (shifted as u8 - 96) as char,
+                    ('Ɓ', '\0'..='\x1e') => (shifted as u8 + 96) as char,
+                    ('Ɓ', '\x1f') => '÷',
+                    _ => INVALID,
+                });
+            }
+            _ => {
+                text.push(c);
+                symbol.push(if c == '\x7f' && set == 'Ɓ' { '÷' } else { c });
+            }
+        }
+    }
+
+    (symbol, text)
+}
+
 impl CommandHandler for BarcodeHandler {
     fn get_graphics(&self, command: &Command, context: &Context) -> Option<GraphicsCommand> {
         let raw_data = &command.data.clone() as &[u8];
@@ -138,14 +216,9 @@ impl CommandHandler for BarcodeHandler {
         match self.kind {
             BarcodeType::Code128 => {
                 //all code128 data has two bytes that set the type, we are converting this to the barcoders format
-                let adjusted_data = data
-                    .replace("{A", "À")
-                    .replace("{B", "Ɓ")
-                    .replace("{C", "Ć");
-
-                let hri_data: String = data.replace("{A", "").replace("{B", "").replace("{C", "");
+                let (adjusted_data, hri_data) = code128_data(data);
 
-                return match Code128::new(adjusted_data.to_string()) {
+                return match Code128::new(adjusted_data) {
                     Ok(barcode) => Some(GraphicsCommand::Barcode(Barcode {
                         points: barcode.encode(),
                         text: TextSpan::new_for_barcode(hri_data.to_string(), context),
-- 
2.43.0


From 9d2576555c24b64cd1730959d058265e2cd5a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 70/75] fix: set a motion unit of 0 back to its default

---
 thermal_parser/src/commands/set_motion_units.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/thermal_parser/src/commands/set_motion_units.rs b/thermal_parser/src/commands/set_motion_units.rs
index ecfcd55..e7a7875 100644
--- a/thermal_parser/src/commands/set_motion_units.rs
+++ b/thermal_parser/src/commands/set_motion_units.rs
@@ -15,14 +15,9 @@ impl CommandHandler for Handler {
         let x = *command.data.get(0).unwrap_or(&0u8);
         let y = *command.data.get(1).unwrap_or(&0u8);
 
-        if x == 0 || y == 0 {
-            return;
-        }
-
-        let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
-        let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
-
+        //Zero sets a unit back to its default
         if x > 0 {
+            let h_motion_unit = (context.graphics.dots_per_inch / x as u16).clamp(1, 255);
             context.graphics.h_motion_unit = h_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
@@ -31,6 +26,7 @@ impl CommandHandler for Handler {
         }
 
         if y > 0 {
+            let v_motion_unit = (context.graphics.dots_per_inch / y as u16).clamp(1, 255);
             context.graphics.v_motion_unit = v_motion_unit as u8;
         } else {
             if let Some(default_context) = &context.default {
-- 
2.43.0


From a1e156e150f0188a6dc569bbbbb81d23e04952ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:45 +0000
Subject: [PATCH 71/75] fix: accept ITF barcodes of two digits

---
 thermal_parser/src/commands/barcode.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thermal_parser/src/commands/barcode.rs b/thermal_parser/src/commands/barcode.rs
index 1e3f301..d1e90f3 100644
--- a/thermal_parser/src/commands/barcode.rs
+++ b/thermal_parser/src/commands/barcode.rs
@@ -99,7 +99,8 @@ impl BarcodeHandler {
             BarcodeType::Ean13 => length == 12 || length == 13,
             BarcodeType::Ean8 => length == 7 || length == 8,
             BarcodeType::Code39 => length > 0,
-            BarcodeType::Nw7Codabar | BarcodeType::Itf => length > 2,
+            BarcodeType::Nw7Codabar => length > 2,
+            BarcodeType::Itf => length > 1,
             BarcodeType::Gs1DatabarLimited
             | BarcodeType::Gs1DatabarTruncated
             | BarcodeType::Gs1DatabarOmni => length == 13,
-- 
2.43.0


From b16ac01b6a5d4041aae3c09dc4aa9642c64efe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:55 +0000
Subject: [PATCH 72/75] fix: report every error of the image once

---
 thermal_renderer/src/image_renderer/mod.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/thermal_renderer/src/image_renderer/mod.rs b/thermal_renderer/src/image_renderer/mod.rs
index d90217c..361bc78 100644
--- a/thermal_renderer/src/image_renderer/mod.rs
+++ b/thermal_renderer/src/image_renderer/mod.rs
@@ -18,6 +18,7 @@
 
 use crate::image_renderer::thermal_image::ThermalImage;
 use crate::renderer::{DebugProfile, OutputRenderer, RenderOutput, Renderer};
+use std::mem;
 use thermal_parser::context::{Context, PrintDirection, Rotation, TextJustify};
 use thermal_parser::graphics::{Image, VectorGraphic, RGBA};
 use thermal_parser::text::TextSpan;
@@ -209,18 +210,9 @@ impl OutputRenderer<ReceiptImage> for ImageRenderer {
     }
 
     fn get_render_errors(&mut self) -> Vec<String> {
-        let mut errors = vec![];
-        let paper_errors = &self.paper_image.errors;
-        let page_errors = &self.page_image.errors;
-
-        for paper_error in paper_errors {
-            errors.push(paper_error.to_owned());
-        }
-
-        for page_error in page_errors {
-            errors.push(page_error.to_owned());
-        }
-
+        //Every error is only reported once, there can be more than one output
+        let mut errors = mem::take(&mut self.paper_image.errors);
+        errors.append(&mut self.page_image.errors);
         errors
     }
 
-- 
2.43.0


From d7cf0305697c7673cac860697b7422fd72d9d9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:06 +0000
Subject: [PATCH 73/75] fix: report nothing when there was nothing to draw

---
 thermal_renderer/src/image_renderer/thermal_image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/image_renderer/thermal_image.rs b/thermal_renderer/src/image_renderer/thermal_image.rs
index 023eb44..1281cab 100644
--- a/thermal_renderer/src/image_renderer/thermal_image.rs
+++ b/thermal_renderer/src/image_renderer/thermal_image.rs
@@ -522,6 +522,11 @@ impl ThermalImage {
 
         //Completely out of bounds, unrenderable
         if exceeds_w || (exceeds_h && !self.auto_grow) {
+            //Without any pixels, nothing is missing
+            if pixels.is_empty() {
+                return false;
+            }
+
             self.errors.push(format!(
                 "Image exceeded paper x{} y{} w{} h{} : exceeded: width? {} height? {}",
                 x,
-- 
2.43.0


From 8e169a95cb1a2cbdef923e0762abba4bbd619b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:52 +0000
Subject: [PATCH 74/75] fix: use the last tab stop

---
 thermal_renderer/src/renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thermal_renderer/src/renderer.rs b/thermal_renderer/src/renderer.rs
index 7d60bfb..78a6ea3 100644
--- a/thermal_renderer/src/renderer.rs
+++ b/thermal_renderer/src/renderer.rs
@@ -488,11 +488,11 @@ impl<'a, Output> Renderer<'a, Output> {
                     .saturating_sub(self.context.get_base_x());
                 let mut current_tab_pos = 0;
                 for tab_len in &self.context.text.tabs {
+                    current_tab_pos += *tab_len as u32 * word.character_width;
                     if current_tab_pos > current_x {
                         self.context.set_x(current_tab_pos);
                         break;
                     }
-                    current_tab_pos += *tab_len as u32 * word.character_width;
                 }
                 continue;
             }
-- 
2.43.0


From 6fc22f563e6039ed3a16b021f63c63f153494ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:41 +0000
Subject: [PATCH 75/75] fix: start every document empty

---
 thermal_renderer/src/html_renderer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/thermal_renderer/src/html_renderer/mod.rs b/thermal_renderer/src/html_renderer/mod.rs
index 6c78790..9269e73 100644
--- a/thermal_renderer/src/html_renderer/mod.rs
+++ b/thermal_renderer/src/html_renderer/mod.rs
@@ -277,6 +277,11 @@ impl OutputRenderer<ReceiptHtml> for HtmlRenderer {
             //Last, the text of the receipt is not part of the template
             .replace("{{content}}", &self.content.join(""));
 
+        //Every output only shows what was rendered since the last one
+        self.content.clear();
+        self.last_y = 0;
+        self.max_y = 0;
+
         ReceiptHtml { content }
     }
 }
-- 
2.43.0

