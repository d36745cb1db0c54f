From 27f45609ff5e39bc4ab47433383c763a62ade4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:54 +0000
Subject: [PATCH 01/19] fix: only return the input as is if it is Lua 5.1 byte
 code with the output settings

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..030852f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,12 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
     // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    let is_unchanged = version == LuaVersion::Lua51
+        && input_format == *output_format
+        && settings.lua51 == settings.output
+        && input_bytes.starts_with(settings.output.binary_signature.as_bytes());
+
+    if is_unchanged && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From b7399907719b205ed24e28ec60d0b50fc7d918c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:55 +0000
Subject: [PATCH 02/19] fix: write string bytes above 127 unchanged

---
 src/serialization/writer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..79de546 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,9 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // Every character of the string stands for a single byte of the byte code.
+        self.size_t(value.chars().count() as i64);
+        self.data.extend(value.chars().map(|character| character as u8));
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 17ca9d2c25a0ae147b17f36f8ab0ca8df7c1035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 03/19] fix: report InputTooShort for string sizes that
 overflow the offset

---
 src/serialization/stream.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..e41a600 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,7 +85,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -96,15 +96,9 @@ impl<'a> ByteStream<'a> {
 
     pub fn string(&mut self) -> Result<String, LunifyError> {
         let length = self.size_t()? as usize;
-        let start = self.offset;
-
-        self.offset += length;
-
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
+        let slice = self.slice(length)?;
 
-        Ok(self.data[start..self.offset].iter().map(|&byte| byte as char).collect())
+        Ok(slice.iter().map(|&byte| byte as char).collect())
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From f213c656d18c8c13e0194746f8883cdc23abea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 04/19] fix: keep the number of upvalues of functions without
 upvalue names

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From a6332b027a390ecf09304dcbb5223c2d5769539a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 05/19] fix: keep the instructions of functions without line
 info

---
 src/function/builder.rs |  2 +-
 src/function/convert.rs | 13 +++++++++++--
 src/function/upcast.rs  | 13 +++++++++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..0625940 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..900b765 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -14,9 +14,13 @@ pub(crate) fn convert(
         return Ok((instructions, line_info));
     }
 
+    // Byte code without debug information has no line info at all.
+    let has_line_info = !line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
     let mut builder = FunctionBuilder::default();
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
 
@@ -104,7 +108,12 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match has_line_info {
+        true => Ok((instructions, line_info)),
+        false => Ok((instructions, Vec::new())),
+    }
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..76571f0 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -12,10 +12,14 @@ pub(crate) fn upcast(
     is_variadic: bool,
     settings: &Settings,
 ) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+    // Byte code without debug information has no line info at all.
+    let has_line_info = !line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         builder.set_line_number(line_number);
 
         match instruction {
@@ -354,7 +358,12 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match has_line_info {
+        true => Ok((instructions, line_info)),
+        false => Ok((instructions, Vec::new())),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9619b4bdab5155838b92e79139c70d90993a15ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 06/19] fix: recognize the Lua 5.0 test number with 32 bit
 floating point numbers

---
 src/format/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..4d433c8 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,12 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                let expected = match number_width {
+                    BitWidth::Bit32 => 31415926.535897933_f32 as f64,
+                    BitWidth::Bit64 => 31415926.535897933,
+                };
+
+                value != expected
             }
         };
 
-- 
2.43.0


From 9bfaa0d9ad38ee3531d7fa2266c7be44b4b38877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 07/19] fix: calculate the registers written by CALL and VARARG

---
 src/function/instruction/lua51.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..1d5010d 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0.saturating_sub(2)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
@@ -140,7 +140,7 @@ impl Instruction {
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a + b.0.saturating_sub(2)),
         }
     }
 }
-- 
2.43.0


From 3ee06476f931e77f459198b2034409e8ca713dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:02 +0000
Subject: [PATCH 08/19] fix: fail instead of changing numbers the output format
 can't represent

---
 src/error.rs                |  4 ++--
 src/number.rs               |  7 ++++---
 src/serialization/writer.rs | 10 +++++++++-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..85dee24 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -39,8 +39,8 @@ pub enum LunifyError {
     /// The byte code contains a number with a non-integral value that can't be
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
-    /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false.
+    /// The byte code contains an integral value that can't be represented in the
+    /// number format of the output.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..1eb2e46 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -12,9 +12,10 @@ impl Number {
     pub(crate) fn as_integer(self) -> Result<i64, LunifyError> {
         match self {
             Number::Integer(value) => Ok(value),
-            Number::Float(value) => match value == value.round() {
+            Number::Float(value) if value != value.round() => Err(LunifyError::FloatPrecisionLoss),
+            Number::Float(value) => match value as i64 as i128 == value as i128 {
                 true => Ok(value as i64),
-                false => Err(LunifyError::FloatPrecisionLoss),
+                false => Err(LunifyError::IntegerOverflow),
             },
         }
     }
@@ -22,7 +23,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match value as f64 as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 79de546..736a61a 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -34,7 +34,15 @@ impl<'a> ByteWriter<'a> {
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
+            true => {
+                let value = value.as_integer()?;
+
+                if self.format.number_width == BitWidth::Bit32 && i32::try_from(value).is_err() {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, value, number_width, i32)
+            }
             false => to_slice!(self, value.as_float()?, number_width, f32),
         }
         Ok(())
-- 
2.43.0


From 0fa8df54404a1b34b3cc5590cf82d5840d006489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 09/19] fix: check the stack size of functions against the
 output stack limit

---
 src/function/builder.rs | 2 +-
 src/function/mod.rs     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 0625940..2b1f33c 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -130,7 +130,7 @@ impl FunctionBuilder {
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
                 let new_stack_size = destination.end + 1;
-                match new_stack_size <= settings.output.stack_limit {
+                match new_stack_size <= settings.output.stack_limit.min(u8::MAX as u64) {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
                 }
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0d36e76..b2a22db 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -267,6 +267,10 @@ impl Function {
             (instructions, constants, functions, line_info, local_variables, upvalues)
         };
 
+        if maximum_stack_size as u64 > settings.output.stack_limit {
+            return Err(LunifyError::StackTooLarge(maximum_stack_size as u64));
+        }
+
         Ok(Self {
             source_file,
             line_defined,
-- 
2.43.0


From 4f5ceb6622ad71a11e9de0c7281a2ea7edb43578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 10/19] fix: adjust jumps to removed instructions and out of
 the function

---
 src/function/builder.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 2b1f33c..8d447f2 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -80,25 +80,39 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
         let (mut steps, mut offset) = match destination.is_positive() {
             true => (destination + 1, 1),
             false => (destination.abs(), 0),
         };
+        let mut distance = 0;
 
-        while steps != 0 {
+        while steps > 0 {
             let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+                true => context_index.checked_add(offset),
+                false => context_index.checked_sub(offset),
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
+            // If the jump leaves the function, the remaining distance stays the same.
+            let context = match index.and_then(|index| self.contexts.get(index)) {
+                Some(context) => context,
+                None => {
+                    distance += steps;
+                    break;
+                }
+            };
+
+            // An instruction can stand for more than one of the original instructions, so
+            // there may be fewer steps left than it accounts for.
             steps += context.line_weight - 1;
+            distance += 1;
             offset += 1;
         }
 
-        destination + final_offset
+        match destination.is_positive() {
+            true => distance - 1 + final_offset,
+            false => final_offset - distance,
+        }
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
@@ -109,7 +123,7 @@ impl FunctionBuilder {
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        Ok(((program_counter as i64) + new_bx).max(0) as usize)
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From e1b95b7337adb8f154aa8e2b7f6e225659e13c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 11/19] fix: split and join table batches at the boundaries of
 their elements

---
 src/function/builder.rs | 140 +++++++++++++++++++++++++++++++++++++++-
 src/function/convert.rs |  87 ++++---------------------
 src/function/upcast.rs  |  82 ++---------------------
 3 files changed, 158 insertions(+), 151 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 8d447f2..a4ea53c 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,6 @@
+use std::ops::Range;
+
+use super::instruction::{Generic, LuaInstruction, Register, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -64,6 +67,138 @@ impl FunctionBuilder {
         self.contexts[index].line_weight += removed.line_weight - 1;
     }
 
+    /// Appends a `SETLIST` instruction that stores `element_count` elements on
+    /// the stack above `a`, the first of which has the zero-based index
+    /// `first_index`. If the elements don't line up with the pages of the output
+    /// they are moved on the stack, and the pages that get filled up along the
+    /// way are stored as soon as they are complete.
+    pub(super) fn set_list(&mut self, a: u64, first_index: u64, element_count: u64, is_open: bool, settings: &Settings) {
+        let fields_per_flush = settings.output.fields_per_flush;
+        let mut page = first_index / fields_per_flush + 1;
+        let mut offset = (first_index % fields_per_flush) as i64;
+        // The number of elements until the current page is complete.
+        let mut boundary = fields_per_flush - first_index % fields_per_flush;
+
+        if offset != 0 || element_count > boundary {
+            // The elements are set up after either the `NEWTABLE` or the previous `SETLIST`
+            // instruction.
+            let mut index = self
+                .contexts
+                .iter()
+                .rposition(|context| match context.instruction {
+                    Instruction::NewTable { a: table, .. } | Instruction::SetList { a: table, .. } => table == a,
+                    _ => false,
+                })
+                .map(|index| index + 1)
+                .unwrap_or(0);
+
+            // If the page of the previous `SETLIST` is not complete, the elements need to
+            // stay on the stack until it is.
+            if offset != 0 && index != 0 && index < self.contexts.len() {
+                if let Instruction::SetList { mode: BC(b, _), .. } = self.contexts[index - 1].instruction {
+                    if b.0 == offset as u64 {
+                        index -= 1;
+                        self.remove_instruction(index);
+                    }
+                }
+            }
+
+            while boundary < element_count {
+                let end = self.element_end(index, a + boundary);
+                self.move_stack_accesses(index..end, a + 1, offset);
+
+                let set_list = Instruction::SetList {
+                    a,
+                    mode: BC(Generic(fields_per_flush), Generic(page)),
+                };
+
+                self.insert_extra_instruction(end, set_list);
+
+                // Jumps to the instruction that follows the element must not skip the
+                // `SETLIST` instruction.
+                if end + 1 < self.contexts.len() {
+                    self.contexts[end].line_weight = self.contexts[end + 1].line_weight;
+                    self.contexts[end + 1].line_weight = 1;
+                }
+
+                index = end + 1;
+                offset -= fields_per_flush as i64;
+                boundary += fields_per_flush;
+                page += 1;
+            }
+
+            self.move_stack_accesses(index..self.contexts.len(), a + 1, offset);
+        }
+
+        // The behavior of `SETLISTO` in Lua 5.0 is used when b is equal to zero.
+        let b = match is_open {
+            true => 0,
+            false => element_count + first_index - (page - 1) * fields_per_flush,
+        };
+
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(Generic(b), Generic(page)),
+        });
+    }
+
+    fn move_stack_accesses(&mut self, range: Range<usize>, stack_start: u64, offset: i64) {
+        for context in &mut self.contexts[range] {
+            context.instruction.move_stack_accesses(stack_start, offset);
+        }
+    }
+
+    /// Returns the index after the last instruction that sets up the table
+    /// element in the specified register.
+    fn element_end(&mut self, start: usize, register: u64) -> usize {
+        for index in (start..self.contexts.len()).rev() {
+            let instruction = self.contexts[index].instruction;
+
+            // A single `LOADNIL` instruction can set up multiple elements.
+            if let Instruction::LoadNil { a, mode: BC(b, unused) } = instruction {
+                if a <= register && register < b.0 {
+                    self.contexts[index].instruction = Instruction::LoadNil {
+                        a,
+                        mode: BC(Register(register), unused),
+                    };
+
+                    let line_number = self.line_info[index];
+                    self.contexts
+                        .insert(index + 1, InstructionContext::new_extra(Instruction::LoadNil {
+                            a: register + 1,
+                            mode: BC(b, unused),
+                        }));
+                    self.line_info.insert(index + 1, line_number);
+
+                    return index + 1;
+                }
+
+                if a <= register && register == b.0 {
+                    return index + 1;
+                }
+            }
+
+            if !matches!(instruction.stack_destination(), Some(destination) if destination.start == register) {
+                continue;
+            }
+
+            let mut end = index + 1;
+
+            // The instructions that specify the upvalues of a closure always set A to zero.
+            if let Instruction::Closure { .. } = instruction {
+                while let Some(Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. }) =
+                    self.contexts.get(end).map(|context| context.instruction)
+                {
+                    end += 1;
+                }
+            }
+
+            return end;
+        }
+
+        start
+    }
+
     pub(super) fn last_instruction_fixed(&mut self) {
         self.contexts.last_mut().unwrap().is_fixed = true;
     }
@@ -72,8 +207,9 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
-        &mut self.contexts[index].instruction
+    pub(super) fn last_stack_destination(&self) -> u64 {
+        let destination = self.contexts.last().and_then(|context| context.instruction.stack_destination());
+        destination.map(|destination| destination.start).unwrap_or(0)
     }
 
     pub(super) fn get_program_counter(&self) -> usize {
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 900b765..5b9ec45 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,5 +1,5 @@
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -28,81 +28,22 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
+                // If C is zero the page is stored in the next instruction, because it is too
+                // big for the operand.
+                if c.0 == 0 {
+                    return Err(LunifyError::ValueTooBigForOperand);
                 }
 
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
+                // If B is zero the last element is the result of the previous instruction, and
+                // we don't know the exact number of elements.
+                let is_open = b.0 == 0;
+                let element_count = match is_open {
+                    true => builder.last_stack_destination().saturating_sub(a).max(1),
+                    false => b.0,
+                };
+                let first_index = settings.lua51.fields_per_flush * (c.0 - 1);
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, first_index, element_count, is_open, settings);
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 76571f0..f8bf778 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -239,82 +239,12 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
-                // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
-                };
-
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
+                // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction.
+                let is_open = matches!(instruction, lua50::Instruction::SetListO { .. });
+                let element_count = bx % settings.lua50.fields_per_flush + 1;
+                let first_index = bx + 1 - element_count;
 
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, first_index, element_count, is_open, settings);
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 042f35296ba61c1c0e38ad373c18b5af7f6b2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 12/19] fix: limit the nesting of functions

---
 src/error.rs        |  3 +++
 src/function/mod.rs | 29 +++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 85dee24..f76d50d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -42,6 +42,9 @@ pub enum LunifyError {
     /// The byte code contains an integral value that can't be represented in the
     /// number format of the output.
     IntegerOverflow,
+    /// The functions of the byte code are nested deeper than Lua 5.1 allows
+    /// (`LUAI_MAXCCALLS`).
+    NestingTooDeep,
     /// The byte code is truncated.
     InputTooShort,
     /// The byte code has access padding.
diff --git a/src/function/mod.rs b/src/function/mod.rs
index b2a22db..07dc5b0 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,9 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum number of functions that can be nested inside each other.
+const MAXIMUM_NESTING: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +117,12 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        nesting: usize,
+    ) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +130,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::nested_from_byte_stream(byte_stream, version, settings, nesting + 1)?;
             functions.push(function);
         }
 
@@ -198,6 +206,19 @@ impl Function {
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+        Self::nested_from_byte_stream(byte_stream, version, settings, 1)
+    }
+
+    fn nested_from_byte_stream(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        nesting: usize,
+    ) -> Result<Self, LunifyError> {
+        if nesting > MAXIMUM_NESTING {
+            return Err(LunifyError::NestingTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +247,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +263,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
-- 
2.43.0


From 0530369188ab5a4f704d7bf2e4c0a9d4bf73a032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 13/19] fix: refuse layouts that don't fit in an instruction

---
 src/error.rs                               |  3 ++-
 src/function/instruction/operand/layout.rs | 10 ++++++++++
 src/lib.rs                                 |  5 +++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index f76d50d..0b2d040 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -7,7 +7,8 @@ use serde::{Deserialize, Serialize};
 pub enum LunifyError {
     /// The specified instruction layout is not valid. This can happen when size
     /// limitations are not respected, when operand types are specified more
-    /// than once, or when the B and C operands are not adjacent.
+    /// than once, when the B and C operands are not adjacent, or when the
+    /// operands don't fit in an instruction.
     InvalidInstructionLayout,
     /// The provided byte code does not start with the signature `\[27]Lua`.
     IncorrectSignature,
diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..448266d 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // Instructions are at most 64 bits wide.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
@@ -149,6 +154,11 @@ impl InstructionLayout {
             signed_offset,
         })
     }
+
+    /// Number of bits that all operands take up together.
+    pub(crate) fn bit_count(&self) -> u64 {
+        self.opcode.size + self.a.size + self.bx.size
+    }
 }
 
 #[cfg(test)]
diff --git a/src/lib.rs b/src/lib.rs
index 030852f..66b4f32 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -57,6 +57,11 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
         return Err(LunifyError::InputTooLong);
     }
 
+    // The instructions have to fit in the instruction width of the output.
+    if settings.output.layout.bit_count() > u8::from(output_format.instruction_width) as u64 * 8 {
+        return Err(LunifyError::InvalidInstructionLayout);
+    }
+
     let mut byte_writer = ByteWriter::new(output_format);
 
     byte_writer.slice(settings.output.binary_signature.as_bytes());
-- 
2.43.0


From 5c0bf26def79f6652f8fa7cb44f13d51ec77c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 14/19] fix: keep the data words of SETLIST instructions

---
 src/function/mod.rs | 65 +++++++++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 07dc5b0..7bcb897 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -9,7 +9,7 @@ use std::fmt::Debug;
 
 use self::constant::Constant;
 use self::convert::convert;
-use self::instruction::LuaInstruction;
+use self::instruction::{Generic, LuaInstruction, BC};
 pub use self::instruction::{lua50, lua51, InstructionLayout, OperandType, Settings};
 use self::local::LocalVariable;
 use self::upcast::upcast;
@@ -37,12 +37,22 @@ pub(crate) struct Function {
 }
 
 impl Function {
-    fn get_instructions<T>(byte_stream: &mut ByteStream, settings: &Settings, layout: &InstructionLayout) -> Result<Vec<T>, LunifyError>
+    /// Returns the instructions and the positions and values of the words in
+    /// between that are not instructions but data of the previous instruction.
+    #[allow(clippy::type_complexity)]
+    fn get_instructions<T>(
+        byte_stream: &mut ByteStream,
+        settings: &Settings,
+        layout: &InstructionLayout,
+        is_followed_by_data: fn(&T) -> bool,
+    ) -> Result<(Vec<T>, Vec<(usize, u64)>), LunifyError>
     where
         T: LuaInstruction + Debug,
     {
         let instruction_count = byte_stream.integer()?;
         let mut instructions = Vec::new();
+        let mut data_words = Vec::new();
+        let mut is_data = false;
 
         #[cfg(feature = "debug")]
         println!("instruction_count: {instruction_count}");
@@ -50,16 +60,29 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\n======== Instructions ========");
 
-        for _program_counter in 0..instruction_count as usize {
+        for program_counter in 0..instruction_count as usize {
+            if is_data {
+                let value = byte_stream.instruction()?;
+
+                if value > u32::MAX as u64 {
+                    return Err(LunifyError::ValueTooBigForOperand);
+                }
+
+                data_words.push((program_counter, value));
+                is_data = false;
+                continue;
+            }
+
             let instruction = T::from_byte_stream(byte_stream, settings, layout)?;
 
             #[cfg(feature = "debug")]
-            println!("[{_program_counter}] {instruction:?}");
+            println!("[{program_counter}] {instruction:?}");
 
+            is_data = is_followed_by_data(&instruction);
             instructions.push(instruction);
         }
 
-        Ok(instructions)
+        Ok((instructions, data_words))
     }
 
     fn get_constants(byte_stream: &mut ByteStream) -> Result<Vec<Constant>, LunifyError> {
@@ -201,8 +224,22 @@ impl Function {
         Ok(upvalues)
     }
 
-    fn strip_instructions(instructions: Vec<impl LuaInstruction>, settings: &Settings) -> Result<Vec<u64>, LunifyError> {
-        instructions.into_iter().map(|instruction| instruction.to_u64(settings)).collect()
+    fn strip_instructions(
+        instructions: Vec<impl LuaInstruction>,
+        data_words: Vec<(usize, u64)>,
+        settings: &Settings,
+    ) -> Result<Vec<u64>, LunifyError> {
+        let mut words = Vec::new();
+        let mut data_words = data_words.into_iter().peekable();
+
+        for instruction in instructions {
+            words.push(instruction.to_u64(settings)?);
+
+            let position = words.len();
+            words.extend(data_words.next_if(|data_word| data_word.0 == position).map(|data_word| data_word.1));
+        }
+
+        Ok(words)
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
@@ -245,7 +282,13 @@ impl Function {
         }
 
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
-            let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
+            // If C is zero, the page of a `SETLIST` instruction is stored in the next word.
+            let is_followed_by_data = |instruction: &lua51::Instruction| {
+                matches!(instruction, lua51::Instruction::SetList { mode: BC(_, Generic(0)), .. })
+            };
+
+            let (instructions, data_words) =
+                Self::get_instructions(byte_stream, settings, &settings.lua51.layout, is_followed_by_data)?;
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
             let line_info = Self::get_line_info(byte_stream)?;
@@ -255,7 +298,7 @@ impl Function {
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
             let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
-            let instructions = Self::strip_instructions(instructions, settings)?;
+            let instructions = Self::strip_instructions(instructions, data_words, settings)?;
 
             (instructions, constants, functions, line_info, local_variables, upvalues)
         } else {
@@ -264,7 +307,7 @@ impl Function {
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
-            let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
+            let (instructions, data_words) = Self::get_instructions(byte_stream, settings, &settings.lua50.layout, |_| false)?;
 
             if is_variadic != 0 {
                 // Lua 5.1 uses an addition flag called `VARARG_ISVARARG` for variadic functions
@@ -283,7 +326,7 @@ impl Function {
                 settings,
             )?;
 
-            let instructions = Self::strip_instructions(instructions, settings)?;
+            let instructions = Self::strip_instructions(instructions, data_words, settings)?;
 
             (instructions, constants, functions, line_info, local_variables, upvalues)
         };
-- 
2.43.0


From 31f1f0f4de17cabbf1e4116107b2ae22a92f4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:57 +0000
Subject: [PATCH 15/19] fix: don't wrap registers that are moved below zero

---
 src/function/instruction/macros.rs       | 2 +-
 src/function/instruction/operand/mode.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/function/instruction/macros.rs b/src/function/instruction/macros.rs
index 63fb759..0e5c135 100644
--- a/src/function/instruction/macros.rs
+++ b/src/function/instruction/macros.rs
@@ -35,7 +35,7 @@ macro_rules! lua_instructions {
                         if $move_a {
                             let value = *a;
                             if value >= stack_start {
-                                *a = (value as i64 + offset) as u64;
+                                *a = value.saturating_add_signed(offset);
                             }
                         }
                         mode.offset(stack_start, offset);
diff --git a/src/function/instruction/operand/mode.rs b/src/function/instruction/operand/mode.rs
index 86989bd..5f91151 100644
--- a/src/function/instruction/operand/mode.rs
+++ b/src/function/instruction/operand/mode.rs
@@ -65,7 +65,7 @@ impl ModePut for Register {
 impl ModeOffset for Register {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.saturating_add_signed(offset);
         }
     }
 }
@@ -118,7 +118,7 @@ impl ModePut for ConstantRegister {
 impl ModeOffset for ConstantRegister {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start && !self.1 {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.saturating_add_signed(offset);
         }
     }
 }
-- 
2.43.0


From 8bda797353f71252a55019446d9e0b7f4ffe257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 16/19] fix: refuse table batches that don't fit on the stack

---
 src/function/builder.rs | 17 ++++++++++++++++-
 src/function/convert.rs |  2 +-
 src/function/upcast.rs  |  2 +-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index a4ea53c..87c0f6a 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -72,7 +72,20 @@ impl FunctionBuilder {
     /// `first_index`. If the elements don't line up with the pages of the output
     /// they are moved on the stack, and the pages that get filled up along the
     /// way are stored as soon as they are complete.
-    pub(super) fn set_list(&mut self, a: u64, first_index: u64, element_count: u64, is_open: bool, settings: &Settings) {
+    pub(super) fn set_list(
+        &mut self,
+        a: u64,
+        first_index: u64,
+        element_count: u64,
+        is_open: bool,
+        settings: &Settings,
+    ) -> Result<(), LunifyError> {
+        // No function can have more elements on the stack than there are registers.
+        let stack_size = a + element_count + 1;
+        if stack_size > u8::MAX as u64 {
+            return Err(LunifyError::StackTooLarge(stack_size));
+        }
+
         let fields_per_flush = settings.output.fields_per_flush;
         let mut page = first_index / fields_per_flush + 1;
         let mut offset = (first_index % fields_per_flush) as i64;
@@ -140,6 +153,8 @@ impl FunctionBuilder {
             a,
             mode: BC(Generic(b), Generic(page)),
         });
+
+        Ok(())
     }
 
     fn move_stack_accesses(&mut self, range: Range<usize>, stack_start: u64, offset: i64) {
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 5b9ec45..97c576a 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -43,7 +43,7 @@ pub(crate) fn convert(
                 };
                 let first_index = settings.lua51.fields_per_flush * (c.0 - 1);
 
-                builder.set_list(a, first_index, element_count, is_open, settings);
+                builder.set_list(a, first_index, element_count, is_open, settings)?;
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f8bf778..9947f9a 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -244,7 +244,7 @@ pub(crate) fn upcast(
                 let element_count = bx % settings.lua50.fields_per_flush + 1;
                 let first_index = bx + 1 - element_count;
 
-                builder.set_list(a, first_index, element_count, is_open, settings);
+                builder.set_list(a, first_index, element_count, is_open, settings)?;
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 1ea6cbbe7746c9b7bf045ae33e772089bdd76ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 17/19] fix: recognise a signature that starts with the other
 signature

The signature of the Lua 5.0 settings was always checked first, so a chunk whose
signature starts with it was split in the wrong place and rejected.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 66b4f32..406c322 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,12 @@ use crate::serialization::{ByteStream, ByteWriter};
 pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) -> Result<Vec<u8>, LunifyError> {
     let mut byte_stream = ByteStream::new(input_bytes);
 
-    if !byte_stream.remove_signature(settings.lua50.binary_signature) && !byte_stream.remove_signature(settings.lua51.binary_signature) {
+    // If one of the signatures starts with the other one, the longer one needs to be
+    // checked first.
+    let mut signatures = [settings.lua50.binary_signature, settings.lua51.binary_signature];
+    signatures.sort_by_key(|signature| std::cmp::Reverse(signature.len()));
+
+    if !signatures.iter().any(|signature| byte_stream.remove_signature(signature)) {
         return Err(LunifyError::IncorrectSignature);
     }
 
-- 
2.43.0


From 33d51c8e541ab548142721bf6a80714609324a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 18/19] fix: keep the scopes of local variables with their code

---
 src/function/mod.rs | 54 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 7bcb897..26aa1c0 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -224,6 +224,37 @@ impl Function {
         Ok(upvalues)
     }
 
+    fn positions(instructions: &[impl LuaInstruction]) -> Vec<i64> {
+        (0..instructions.len() as i64).collect()
+    }
+
+    /// Adjusts the line info and the scopes of the local variables to code that
+    /// had instructions added or removed. `origins` has the position of the
+    /// original instruction for each of the new instructions, in ascending
+    /// order.
+    fn adjust_debug_information(origins: &[i64], line_info: &mut Vec<i64>, local_variables: &mut [LocalVariable]) {
+        // If the code is the same, so is the debug information.
+        if origins.iter().enumerate().all(|(position, origin)| position as i64 == *origin) {
+            return;
+        }
+
+        if !line_info.is_empty() {
+            let line_number = |origin: &i64| line_info.get(*origin as usize).copied().unwrap_or(0);
+            *line_info = origins.iter().map(line_number).collect();
+        }
+
+        // Program counters that are not in the code stay the same.
+        let new_position = |program_counter: i64| match program_counter.is_positive() {
+            true => origins.partition_point(|origin| *origin < program_counter) as i64,
+            false => program_counter,
+        };
+
+        for local_variable in local_variables {
+            local_variable.start_program_counter = new_position(local_variable.start_program_counter);
+            local_variable.end_program_counter = new_position(local_variable.end_program_counter);
+        }
+    }
+
     fn strip_instructions(
         instructions: Vec<impl LuaInstruction>,
         data_words: Vec<(usize, u64)>,
@@ -291,19 +322,21 @@ impl Function {
                 Self::get_instructions(byte_stream, settings, &settings.lua51.layout, is_followed_by_data)?;
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
-            let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut line_info = Self::get_line_info(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
 
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
-            let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            let origins = Self::positions(&instructions);
+            let (instructions, origins) = convert(instructions, origins, &mut maximum_stack_size, settings)?;
+            Self::adjust_debug_information(&origins, &mut line_info, &mut local_variables);
             let instructions = Self::strip_instructions(instructions, data_words, settings)?;
 
             (instructions, constants, functions, line_info, local_variables, upvalues)
         } else {
-            let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut line_info = Self::get_line_info(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, nesting)?;
@@ -315,16 +348,23 @@ impl Function {
                 is_variadic |= 2;
             }
 
+            // Byte code without debug information has no line info at all.
+            if !line_info.is_empty() {
+                line_info.resize(instructions.len(), 0);
+            }
+
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-            let (instructions, line_info) = upcast(
+            let origins = Self::positions(&instructions);
+            let (instructions, origins) = upcast(
                 instructions,
-                line_info,
+                origins,
                 &mut constants,
                 &mut maximum_stack_size,
                 parameter_count,
                 is_variadic != 0,
                 settings,
             )?;
+            Self::adjust_debug_information(&origins, &mut line_info, &mut local_variables);
 
             let instructions = Self::strip_instructions(instructions, data_words, settings)?;
 
-- 
2.43.0


From 09312393ecec15f22460bbaeebaa47d0db06311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 19/19] fix: refuse loops with more variables than registers
 before translating them

---
 src/function/upcast.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 9947f9a..3a097e4 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -111,6 +111,13 @@ pub(crate) fn upcast(
 
                     let variable_count = c.0 + 1;
                     let call_base = a + variable_count + 2;
+
+                    // No function can have more variables on the stack than there are registers.
+                    let stack_size = call_base + variable_count;
+                    if stack_size > u8::MAX as u64 {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     let constant_nil = constant_manager.constant_nil();
 
                     // Move the iterator function, the table and the index to our call base.
-- 
2.43.0

