From 4b75419a7d85f3795b445f3546567f02b6902ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 01/23] fix: address arithmetic words wrap instead of
 overflowing

char+ cell+ cells float+ floats aligned faligned panicked in checked builds
for operands near the ends of the integer range, where the other arithmetic
words wrap.
---
 src/core.rs   | 9 ++++++---
 src/float.rs  | 6 ++++--
 src/memory.rs | 6 +++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7b1c475..4cf8716 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2460,7 +2460,8 @@ pub trait Core: Sized {
     ///Add the size in address units of a character to `c-addr1`, giving `c-addr2`.
     fn char_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<u8>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<u8>() as isize));
     }
 
     /// Run-time: ( a-addr1 -- a-addr2 )
@@ -2468,7 +2469,8 @@ pub trait Core: Sized {
     /// Add the size in address units of a cell to `a-addr1`, giving `a-addr2`.
     fn cell_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<isize>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -2476,7 +2478,8 @@ pub trait Core: Sized {
     /// `n2` is the size in address units of `n1` cells.
     fn cells(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<isize>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<isize>() as isize));
     }
 
     fn swap(&mut self) {
diff --git a/src/float.rs b/src/float.rs
index e52b370..9132710 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -74,7 +74,8 @@ pub trait Float: Core {
     /// Add the size in address units of a float to `a-addr1`, giving `a-addr2`.
     fn float_plus(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v + mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_add(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( n1 -- n2 )
@@ -82,7 +83,8 @@ pub trait Float: Core {
     /// `n2` is the size in address units of `n1` floats.
     fn floats(&mut self) {
         let v = self.s_stack().pop();
-        self.s_stack().push(v * mem::size_of::<f64>() as isize);
+        self.s_stack()
+            .push(v.wrapping_mul(mem::size_of::<f64>() as isize));
     }
 
     /// Run-time: ( addr -- a-addr )
diff --git a/src/memory.rs b/src/memory.rs
index 61f3cc4..c403940 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -268,7 +268,7 @@ pub trait Memory {
     /// First aligned address greater than or equal to `pos`.
     fn aligned(pos: usize) -> usize {
         let align = mem::align_of::<isize>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not aligned, reserve enough space to align it.
@@ -280,7 +280,7 @@ pub trait Memory {
     /// First float-aligned address greater than or equal to `pos`.
     fn aligned_f64(pos: usize) -> usize {
         let align = mem::align_of::<f64>();
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the data-space pointer is not float-aligned, reserve enough space to align it.
@@ -292,7 +292,7 @@ pub trait Memory {
     /// First address aligned to 16-byte boundary greater than or equal to `pos`.
     fn aligned_16bytes(pos: usize) -> usize {
         let align = 16;
-        (pos + align - 1) & align.wrapping_neg()
+        pos.wrapping_add(align - 1) & align.wrapping_neg()
     }
 
     /// If the space pointer is not aligned to 16-byte boundary, reserve enough space to align it.
-- 
2.43.0


From df26fa9ab502fb0252f69fa4d0513de1a435c9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/23] fix: memory words reject addresses whose end wraps
 around

The range checks of @ ! move and the file words added the length to the
address without looking for overflow, so an address near the top of the
address space passed the check (-1 @ read outside the data space) or
panicked in checked builds.
---
 src/core.rs        |  8 ++++----
 src/file_access.rs | 12 +++++-------
 src/memory.rs      |  8 ++++++++
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 4cf8716..31bd916 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2783,7 +2783,7 @@ pub trait Core: Sized {
     /// `x` is the value stored at `a-addr`.
     fn fetch(&mut self) {
         let t = self.s_stack().pop() as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             let value = unsafe { self.data_space().get_isize(t as usize) as isize };
             self.s_stack().push(value);
@@ -2798,7 +2798,7 @@ pub trait Core: Sized {
     fn store(&mut self) {
         let (n, t) = self.s_stack().pop2();
         let t = t as usize;
-        if self.data_space().start() < t && t + mem::size_of::<isize>() <= self.data_space().limit()
+        if self.data_space().start() < t && self.data_space().has_range(t, mem::size_of::<isize>())
         {
             unsafe { self.data_space().put_isize(n as isize, t as usize) };
         } else {
@@ -2849,9 +2849,9 @@ pub trait Core: Sized {
             let addr1 = addr1 as usize;
             let addr2 = addr2 as usize;
             if self.data_space().start() < addr1
-                && addr1 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr1, u)
                 && self.data_space().start() < addr2
-                && addr2 + u <= self.data_space().limit()
+                && self.data_space().has_range(addr2, u)
             {
                 unsafe {
                     if addr1 < addr2 {
diff --git a/src/file_access.rs b/src/file_access.rs
index a36810f..78261db 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -177,7 +177,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -220,7 +220,7 @@ pub trait FileAccess: Core {
             self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
-                if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u) {
                     let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                     match fs::remove_file(path_name) {
                         Err(_) => FILE_IO_EXCEPTION.into(),
@@ -269,7 +269,7 @@ pub trait FileAccess: Core {
             }
         };
         let file = {
-            if self.data_space().start() <= caddr && caddr + u <= self.data_space().limit() {
+            if self.data_space().has_range(caddr, u) {
                 let path_name = unsafe { self.data_space().str_from_raw_parts(caddr, u) };
                 match options.open(&path_name) {
                     Err(_) => Err(FILE_IO_EXCEPTION),
@@ -341,7 +341,7 @@ pub trait FileAccess: Core {
         } else {
             let mut file = self.files_mut()[fileid].take().unwrap();
             let result = {
-                if self.data_space().start() <= caddr && caddr + u1 <= self.data_space().limit() {
+                if self.data_space().has_range(caddr, u1) {
                     let mut buf = unsafe { self.data_space().buffer_from_raw_parts_mut(caddr, u1) };
                     file.read(&mut buf).or(Err(FILE_IO_EXCEPTION.into()))
                 } else {
@@ -383,9 +383,7 @@ pub trait FileAccess: Core {
             match self.files_mut()[fileid].take() {
                 Some(mut f) => {
                     let result = {
-                        if self.data_space().start() <= caddr
-                            && caddr + u <= self.data_space().limit()
-                        {
+                        if self.data_space().has_range(caddr, u) {
                             let buf = unsafe {
                                 self.data_space().buffer_from_raw_parts(caddr as _, u as _)
                             };
diff --git a/src/memory.rs b/src/memory.rs
index c403940..1934a5e 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -118,6 +118,14 @@ pub trait Memory {
         self.start() <= pos && pos < self.limit()
     }
 
+    /// Does memory contain the `len` bytes starting at `pos`?
+    fn has_range(&self, pos: usize, len: usize) -> bool {
+        match pos.checked_add(len) {
+            Some(end) => self.start() <= pos && end <= self.limit(),
+            None => false,
+        }
+    }
+
     /// Next free space
     fn here(&self) -> usize;
 
-- 
2.43.0


From 046161eb258f357d15c75963cbb2a9b88ddcaec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 03/23] fix: type and open-source check their string argument

Both built a string from any address and length: 0 10 type crashed the
process, and bytes that are not UTF-8 ended in a Rust string.
---
 src/loader.rs | 13 +++++++++----
 src/output.rs | 13 ++++++++-----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/loader.rs b/src/loader.rs
index e23754e..48eacc4 100644
--- a/src/loader.rs
+++ b/src/loader.rs
@@ -1,7 +1,7 @@
 //! Source input
 
 use core::Core;
-use exception::{Exception, FILE_IO_EXCEPTION, INVALID_NUMERIC_ARGUMENT};
+use exception::{Exception, FILE_IO_EXCEPTION, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT};
 use memory::Memory;
 use output::Output;
 use std::fs::File;
@@ -38,14 +38,19 @@ pub trait HasLoader: Core + Output {
     /// or opened read-write.
     fn open_source(&mut self) {
         let (caddr, u, id) = self.s_stack().pop3();
+        if !self.data_space().has_range(caddr as usize, u as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         if id > 0 && id - 1 < self.files().len() as isize {
             match self.files_mut()[id as usize - 1].take() {
                 Some(file) => {
                     let position = self.sources().iter().position(|x| x.is_none());
                     let reader = BufReader::new(file);
-                    let path = String::from(unsafe {
-                        self.data_space().str_from_raw_parts(caddr as _, u as _)
-                    });
+                    let path = String::from_utf8_lossy(unsafe {
+                        self.data_space().buffer_from_raw_parts(caddr as _, u as _)
+                    })
+                    .into_owned();
                     match position {
                         Some(sid) => {
                             self.sources_mut()[sid] = Some(Source { reader, path });
diff --git a/src/output.rs b/src/output.rs
index feece3d..64c3118 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -1,7 +1,7 @@
 //! Words output to console
 
 use core::Core;
-use exception::{STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
+use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
 
@@ -54,15 +54,18 @@ pub trait Output: Core {
             self.abort_with(STACK_UNDERFLOW);
             return;
         }
+        if !self.data_space().has_range(addr as usize, len as usize) {
+            self.abort_with(INVALID_MEMORY_ADDRESS);
+            return;
+        }
         match self.output_buffer().take() {
             Some(mut buffer) => {
                 {
                     let s = unsafe {
-                        &self
-                            .data_space()
-                            .str_from_raw_parts(addr as usize, len as usize)
+                        self.data_space()
+                            .buffer_from_raw_parts(addr as usize, len as usize)
                     };
-                    buffer.push_str(s);
+                    buffer.push_str(&String::from_utf8_lossy(s));
                 }
                 self.set_output_buffer(buffer);
             }
-- 
2.43.0


From b4515f28987a9fd26216fb6ddd601c32ab4626a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 04/23] fix: delete-file leaves one result for a name that is
 too long

It left a spare -1 under the ior; read-file with file-id 0 reported -1
transferred characters instead of 0.
---
 src/file_access.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file_access.rs b/src/file_access.rs
index 78261db..a9a6ee3 100644
--- a/src/file_access.rs
+++ b/src/file_access.rs
@@ -217,7 +217,7 @@ pub trait FileAccess: Core {
         let caddr = caddr as usize;
         let u = u as usize;
         if u > PATH_NAME_MAX_LEN {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push(INVALID_NUMERIC_ARGUMENT.into());
         } else {
             let result = {
                 if self.data_space().has_range(caddr, u) {
@@ -332,7 +332,7 @@ pub trait FileAccess: Core {
         let u1 = u1 as usize;
         let fileid = fileid as usize;
         if fileid == 0 {
-            self.s_stack().push2(-1, INVALID_NUMERIC_ARGUMENT.into());
+            self.s_stack().push2(0, INVALID_NUMERIC_ARGUMENT.into());
             return;
         }
         let fileid = fileid - 1;
-- 
2.43.0


From 57822dfde54a080edc4ac65a7b97876f54500758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 05/23] fix: parsing words tolerate the end of the input

parse, _skip, s" and ." sliced the input buffer at the parse position without
looking at its length, so s" or a comment word at the very end of a line,
a parse position set past the end, or a task without an input buffer made
the host panic.  _skip also advanced by characters instead of bytes.
---
 src/core.rs   | 27 ++++++++++++++++++---------
 src/output.rs | 11 ++++++-----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 31bd916..abe707c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1698,8 +1698,7 @@ pub trait Core: Sized {
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         if let Some(input_buffer) = self.input_buffer().take() {
-            if self.state().source_index < input_buffer.len() {
-                let source = &input_buffer[self.state().source_index..];
+            if let Some(source) = input_buffer.get(self.state().source_index..) {
                 let mut cnt = source.len();
                 let mut char_indices = source.char_indices();
                 loop {
@@ -1767,12 +1766,15 @@ pub trait Core: Sized {
     ///
     /// Parse ccc delimited by the delimiter char.
     fn parse(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
         let mut last_token = self.last_token().take().expect("token");
         last_token.clear();
         {
-            let source = &input_buffer[self.state().source_index..];
+            let source = input_buffer
+                .as_ref()
+                .and_then(|b| b.get(self.state().source_index..))
+                .unwrap_or("");
             let mut cnt = source.len();
             let mut char_indices = source.char_indices();
             loop {
@@ -1798,24 +1800,29 @@ pub trait Core: Sized {
             self.state().source_index = self.state().source_index + cnt;
         }
         self.set_last_token(last_token);
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     /// Run-time: ( char "ccc" -- )
     ///
     /// Skip all of the delimiter char.
     fn _skip(&mut self) {
-        let input_buffer = self.input_buffer().take().expect("input buffer");
+        let input_buffer = self.input_buffer().take();
         let v = self.s_stack().pop();
         {
-            let source = &input_buffer[self.state().source_index..];
+            let source = input_buffer
+                .as_ref()
+                .and_then(|b| b.get(self.state().source_index..))
+                .unwrap_or("");
             let mut cnt = 0;
             let mut char_indices = source.char_indices();
             loop {
                 match char_indices.next() {
                     Some((idx, ch)) => {
                         if ch as isize == v {
-                            cnt += 1;
+                            cnt += ch.len_utf8();
                         } else {
                             break;
                         }
@@ -1827,7 +1834,9 @@ pub trait Core: Sized {
             }
             self.state().source_index = self.state().source_index + cnt;
         }
-        self.set_input_buffer(input_buffer);
+        if let Some(input_buffer) = input_buffer {
+            self.set_input_buffer(input_buffer);
+        }
     }
 
     fn imm_paren(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index 64c3118..5758858 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -85,11 +85,11 @@ pub trait Output: Core {
     fn s_quote(&mut self) {
         let input_buffer = self.input_buffer().take().unwrap();
         {
-            let source = &input_buffer[self.state().source_index + 1..input_buffer.len()];
+            let source = input_buffer
+                .get(self.state().source_index.saturating_add(1)..)
+                .unwrap_or("");
             let s = match source.find('"') {
-                Some(n) => {
-                    &input_buffer[self.state().source_index + 1..self.state().source_index + 1 + n]
-                }
+                Some(n) => &source[..n],
                 None => source,
             };
             let cnt = s.len();
@@ -99,7 +99,8 @@ pub trait Output: Core {
             self.data_space().compile_str(s);
             self.data_space().align();
             // ignore the space following S"
-            self.state().source_index = self.state().source_index + 1 + cnt as usize + 1;
+            let next = self.state().source_index.saturating_add(cnt + 2);
+            self.state().source_index = next.min(input_buffer.len());
         }
         self.set_input_buffer(input_buffer);
     }
-- 
2.43.0


From 3b3d9818e6c16a3baa936797f691f297ac3ed92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 06/23] fix: activate, suspend and resume reject the smallest
 integer

Subtracting one from it overflowed and panicked in checked builds instead of
reporting an invalid numeric argument.
---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index abe707c..6790645 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1627,7 +1627,7 @@ pub trait Core: Sized {
     }
 
     fn activate(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             // Wake task `i`.
             self.set_awake(i, true);
@@ -3237,7 +3237,7 @@ pub trait Core: Sized {
 
     /// Suspend task `i`. `suspend ( i -- )`
     fn suspend(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, false);
         } else {
@@ -3247,7 +3247,7 @@ pub trait Core: Sized {
 
     /// Resume task `i`. `resume ( i -- )`
     fn resume(&mut self) {
-        let i = (self.s_stack().pop() - 1) as usize;
+        let i = self.s_stack().pop().wrapping_sub(1) as usize;
         if i < NUM_TASKS {
             self.set_awake(i as usize, true);
         } else {
-- 
2.43.0


From 5a5144afdf19bcd84ff19e21fa5fedc1212f5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 07/23] fix: i and j outside a loop do not overflow the stack
 index

With a shallow return stack the index computation panicked in checked builds;
it now wraps like every other stack access.
---
 src/core.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 6790645..9fe5d13 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1079,9 +1079,9 @@ pub trait Core: Sized {
     }
 
     fn p_j(&mut self) {
-        let pos = self.r_stack().len() - 4;
+        let pos = self.r_stack().len().wrapping_sub(4);
         match self.r_stack().get(pos) {
-            Some(jt) => match self.r_stack().get(pos - 1) {
+            Some(jt) => match self.r_stack().get(pos.wrapping_sub(1)) {
                 Some(jn) => {
                     self.s_stack().push(jt.wrapping_add(jn));
                 }
@@ -1651,7 +1651,7 @@ pub trait Core: Sized {
     fn p_i(&mut self) {
         match self.r_stack().last() {
             Some(it) => {
-                let next = self.r_stack().len - 2;
+                let next = self.r_stack().len.wrapping_sub(2);
                 match self.r_stack().get(next) {
                     Some(inext) => {
                         self.s_stack().push(it.wrapping_add(inext));
-- 
2.43.0


From be8f71a20e4c34c791789694b7ca468d293e81d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 08/23] fix: (xtime) checks its execution token

A token outside the dictionary indexed past the word list, and a start time
later than now underflowed; both made the host panic.
---
 src/tools.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 21ee4d2..5bee8dd 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -1,5 +1,6 @@
 //! Tools to inspect the rtforth system
 
+use exception::INVALID_NUMERIC_ARGUMENT;
 use memory::Memory;
 use output::Output;
 use std::fmt::Write;
@@ -151,7 +152,11 @@ pub trait Tools: Output {
     /// ```
     fn set_execution_times(&mut self) {
         let (t0, xt) = self.s_stack().pop2();
-        let t = (self.system_time_ns() / 1_000) as usize - t0 as usize;
+        if xt as usize >= self.wordlist().len() {
+            self.abort_with(INVALID_NUMERIC_ARGUMENT);
+            return;
+        }
+        let t = ((self.system_time_ns() / 1_000) as usize).saturating_sub(t0 as usize);
         let word = &mut self.wordlist_mut()[xt as usize];
         if word.min_execution_time != 0 {
             word.min_execution_time = word.min_execution_time.min(t);
-- 
2.43.0


From a4f8b68e4c34f3ac5a4a1b672e153b0765f8e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 09/23] fix: .backtrace survives the removal of the aborted
 word

A marker may have removed the word that aborted; .backtrace then indexed past
the word list.
---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 5bee8dd..2136ba6 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -95,7 +95,7 @@ pub trait Tools: Output {
             }
 
             let xt = self.state().aborted_word_pointer;
-            if xt != 0 {
+            if xt != 0 && xt < self.wordlist().len() {
                 let nfa = self.wordlist()[xt].nfa();
                 let name = unsafe { self.data_space().get_str(nfa) };
                 write!(buf, "{} ", name).unwrap();
-- 
2.43.0


From 73492c6d0318a5cda8a1455e9d8f5b4d2593e21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 10/23] fix: .r and f.r accept any negative field width

The smallest integers overflowed in the padding computation.
---
 src/output.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 5758858..7d71888 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -160,7 +160,7 @@ pub trait Output: Core {
                 }
             }
             if valid_base {
-                for _ in 0..(n2 - self.hold_buffer().len() as isize) {
+                for _ in 0..n2.saturating_sub(self.hold_buffer().len() as isize) {
                     buf.push(' ');
                 }
                 buf.push_str(self.hold_buffer());
@@ -203,7 +203,7 @@ pub trait Output: Core {
                 16 => write!(self.hold_buffer(), "{:.16}", r).unwrap(),
                 _ => write!(self.hold_buffer(), "{:.17}", r).unwrap(),
             }
-            for _ in 0..(n1 - self.hold_buffer().len() as isize) {
+            for _ in 0..n1.saturating_sub(self.hold_buffer().len() as isize) {
                 buf.push(' ');
             }
             buf.push_str(self.hold_buffer());
-- 
2.43.0


From 67e1854cf27d5e90704c58ed5771de4a867f32c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 11/23] fix: !token reports an invalid address instead of
 panicking

Storing a token near the end of the data space, or beyond it, panicked.
---
 src/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 9fe5d13..1151bea 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2020,7 +2020,12 @@ pub trait Core: Sized {
     /// Store token in counted string at `c-addr`.`
     fn store_token(&mut self) {
         let c_addr = self.s_stack().pop() as usize;
-        if self.data_space().start() <= c_addr {
+        // Room for the count and the characters, as put_cstr wants it.
+        let len = match self.last_token().as_ref() {
+            Some(t) => t.len().min(255) + mem::size_of::<usize>(),
+            None => 1,
+        };
+        if self.data_space().has_range(c_addr, len) {
             match self.last_token().take() {
                 Some(mut t) => {
                     self.data_space().put_cstr(&t, c_addr);
-- 
2.43.0


From 4cc78e17bdcb1e13bc363cce1c40bdd118adee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 12/23] fix: aborting with an invalid handler does not recurse
 forever

abort_with executed the handler token, which aborted again when it is not a
word (any number stored by handler!, or a handler removed by a marker), until
the host stack overflowed.
---
 src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 1151bea..417826a 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3214,7 +3214,10 @@ pub trait Core: Sized {
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-        self.execute_word(h);
+        // A handler outside the dictionary would abort again, without end.
+        if h < self.wordlist().len() {
+            self.execute_word(h);
+        }
     }
 
     /// Abort the inner loop with an exception, reset VM and clears stacks.
-- 
2.43.0


From 84bbcd0601f4a15fc2401954fd7fe104207aaa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 13/23] fix: marker and fconstant without a name leave the data
 space alone

They reported the missing name but still compiled the body of the word that
was not defined.
---
 src/core.rs  | 3 +++
 src/float.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 417826a..0465d78 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2374,6 +2374,9 @@ pub trait Core: Sized {
         let x = self.wordlist().last;
         self.wordlist_mut().temp_buckets = self.wordlist().buckets;
         self.define(Core::unmark, Core::compile_unmark);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
diff --git a/src/float.rs b/src/float.rs
index 9132710..20b39e0 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -65,6 +65,9 @@ pub trait Float: Core {
     fn fconstant(&mut self) {
         let v = self.f_stack().pop();
         self.define(Float::p_fconst, Core::compile_fconst);
+        if self.last_error().is_some() {
+            return;
+        }
         self.data_space().align_f64();
         self.data_space().compile_f64(v);
     }
-- 
2.43.0


From 7bef6edd1d6b70930c472076131bbb2dc144f149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 14/23] fix: an aborted definition takes its unresolved labels
 with it

A goto or call to a label that was still missing when the definition failed
stayed pending, so every later definition was rejected with a control
structure mismatch until 0labels, or patched memory of the failed one.
---
 src/core.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 0465d78..b4a0187 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -3214,6 +3214,8 @@ pub trait Core: Sized {
     /// Abort the inner loop with an exception, reset VM and clears stacks.
     fn abort_with(&mut self, e: Exception) {
         self.clear_stacks();
+        // A definition that is given up takes its unresolved gotos with it.
+        self.forward_bitset_mut().clear();
         self.set_error(Some(e));
         let h = self.handler();
         self.state().aborted_word_pointer = self.state().word_pointer;
-- 
2.43.0


From 8db49353f71c66932836bf5f133708d1f4b750ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 15/23] fix: allot reports a data space overflow

A request that does not fit was ignored without any error, and one near the
ends of the integer range panicked in checked builds.
---
 src/core.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index b4a0187..05f4857 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -4,7 +4,7 @@
 
 extern crate libc;
 use exception::{
-    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DIVISION_BY_ZERO,
+    self, Exception, ABORT, CONTROL_STRUCTURE_MISMATCH, DICTIONARY_OVERFLOW, DIVISION_BY_ZERO,
     FLOATING_POINT_STACK_OVERFLOW, FLOATING_POINT_STACK_UNDERFLOW,
     INTERPRETING_A_COMPILE_ONLY_WORD, INVALID_MEMORY_ADDRESS, INVALID_NUMERIC_ARGUMENT,
     RETURN_STACK_OVERFLOW, RETURN_STACK_UNDERFLOW, STACK_OVERFLOW, STACK_UNDERFLOW, UNDEFINED_WORD,
@@ -3000,7 +3000,14 @@ pub trait Core: Sized {
     /// zero, leave the data-space pointer unchanged.
     fn allot(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().allot(v);
+        if self.s_stack().underflow() {
+            self.abort_with(STACK_UNDERFLOW);
+            return;
+        }
+        let here = (self.data_space().here() as isize).wrapping_add(v) as usize;
+        if self.data_space().set_here(here).is_err() {
+            self.abort_with(DICTIONARY_OVERFLOW);
+        }
     }
 
     /// Run-time: ( addr -- a-addr )
-- 
2.43.0


From ee1db5702c8592c638156093b664aed0e36dc432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:01 +0000
Subject: [PATCH 16/23] fix: report DICTIONARY_OVERFLOW when the data space is
 full

Compiling or defining a word, or appending a cell, with too little room left
made the host panic, although the exception exists.  The words that append to
the data space now look for room first.
---
 src/core.rs   | 43 +++++++++++++++++++++++++++++++++++++++++--
 src/output.rs |  8 ++++++++
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 05f4857..3d4cecb 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -102,6 +102,9 @@ impl<Target> Word<Target> {
 
 const BUCKET_SIZE: usize = 64;
 
+/// No compilation semantics appends more than this to the data space, strings excepted.
+const COMPILE_MAX: usize = 8 * mem::size_of::<usize>();
+
 /// Wordlist
 pub struct Wordlist<Target> {
     words: Vec<Word<Target>>,
@@ -720,6 +723,18 @@ pub trait Core: Sized {
         self.set_awake(0, true);
     }
 
+    /// Is there room for `n` more bytes in the data space?
+    ///
+    /// Abort with DICTIONARY_OVERFLOW if there is not.
+    fn has_room(&mut self, n: usize) -> bool {
+        if n <= self.data_space().limit() - self.data_space().here() {
+            true
+        } else {
+            self.abort_with(DICTIONARY_OVERFLOW);
+            false
+        }
+    }
+
     /// Add a primitive word to word list.
     fn add_primitive(&mut self, name: &str, action: fn(&mut Self)) {
         let nfa = self.data_space().compile_str(name);
@@ -1900,11 +1915,17 @@ pub trait Core: Sized {
         // --+------+---------+-----------+--
         // Because B comes after A, the xt of A is valid during execution of B.
         let xt = self.s_stack().pop() as usize;
+        if !self.has_room(COMPILE_MAX) {
+            return;
+        }
         let compilation_semantics = self.wordlist()[xt].compilation_semantics;
         compilation_semantics(self, xt);
     }
 
     fn compile_token(&mut self) {
+        if !self.has_room(COMPILE_MAX) {
+            return;
+        }
         let last_token = self.last_token().take().expect("token");
         match self.find(&last_token) {
             Some(found_index) => {
@@ -2298,6 +2319,8 @@ pub trait Core: Sized {
         if last_token.is_empty() {
             self.set_last_token(last_token);
             self.abort_with(UNEXPECTED_END_OF_FILE);
+        } else if !self.has_room(last_token.len() + COMPILE_MAX) {
+            self.set_last_token(last_token);
         } else {
             let nfa = self.data_space().compile_str(&last_token);
             self.data_space().align();
@@ -2377,6 +2400,15 @@ pub trait Core: Sized {
         if self.last_error().is_some() {
             return;
         }
+        if !self.has_room((1 + BUCKET_SIZE) * mem::size_of::<usize>()) {
+            // Take back the word that has no room for its body.
+            let def = self.wordlist().len() - 1;
+            let nfa = self.wordlist()[def].nfa();
+            self.wordlist_mut().buckets = self.wordlist().temp_buckets;
+            self.wordlist_mut().truncate(def);
+            self.data_space().truncate(nfa);
+            return;
+        }
         self.data_space().compile_usize(x);
         for i in 0..BUCKET_SIZE {
             let x = self.wordlist().temp_buckets[i];
@@ -2439,6 +2471,9 @@ pub trait Core: Sized {
 
     /// Run time behavior of does>.
     fn _does(&mut self) {
+        if !self.has_room(mem::size_of::<usize>()) {
+            return;
+        }
         let doer = self.state().instruction_pointer + mem::size_of::<isize>();
         self.data_space().compile_usize(doer);
         let def = self.wordlist().last;
@@ -2982,7 +3017,9 @@ pub trait Core: Sized {
     /// Append the execution semantics of the definition represented by xt to the execution semantics of the current definition.
     fn compile_comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.has_room(mem::size_of::<isize>()) {
+            self.data_space().compile_isize(v as isize);
+        }
     }
 
     /// Run-time: ( -- addr )
@@ -3034,7 +3071,9 @@ pub trait Core: Sized {
     /// data-space pointer is not aligned prior to execution of `,`.
     fn comma(&mut self) {
         let v = self.s_stack().pop();
-        self.data_space().compile_isize(v as isize);
+        if self.has_room(mem::size_of::<isize>()) {
+            self.data_space().compile_isize(v as isize);
+        }
     }
 
     fn p_to_r(&mut self) {
diff --git a/src/output.rs b/src/output.rs
index 7d71888..17ffbfb 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -4,6 +4,7 @@ use core::Core;
 use exception::{INVALID_MEMORY_ADDRESS, STACK_UNDERFLOW, UNSUPPORTED_OPERATION};
 use memory::Memory;
 use std::fmt::Write;
+use std::mem;
 
 /// Types that can output to console.
 pub trait Output: Core {
@@ -93,6 +94,10 @@ pub trait Output: Core {
                 None => source,
             };
             let cnt = s.len();
+            if !self.has_room(cnt + 4 * mem::size_of::<usize>()) {
+                self.set_input_buffer(input_buffer);
+                return;
+            }
             let idx = self.references().idx_s_quote;
             let compilation_semantics = self.wordlist()[idx].compilation_semantics;
             compilation_semantics(self, idx);
@@ -115,6 +120,9 @@ pub trait Output: Core {
     /// Display ccc.
     fn dot_quote(&mut self) {
         self.s_quote();
+        if self.last_error().is_some() {
+            return;
+        }
         let idx_type = self.references().idx_type;
         self.compile_word(idx_type);
     }
-- 
2.43.0


From fbc83385f5cf4660e687926db1190c7b231b9020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 17/23] fix: memory words access cells at any alignment

@ ! and the other words that take an address dereferenced misaligned
pointers, which aborts builds with debug assertions and is undefined
behaviour elsewhere.
---
 src/memory.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/memory.rs b/src/memory.rs
index 1934a5e..e476f9a 100644
--- a/src/memory.rs
+++ b/src/memory.rs
@@ -137,15 +137,15 @@ pub trait Memory {
     }
 
     unsafe fn get_usize(&self, addr: usize) -> usize {
-        *(addr as *mut usize)
+        (addr as *const usize).read_unaligned()
     }
 
     unsafe fn get_isize(&self, addr: usize) -> isize {
-        *(addr as *mut isize)
+        (addr as *const isize).read_unaligned()
     }
 
     unsafe fn get_f64(&self, addr: usize) -> f64 {
-        *(addr as *mut f64)
+        (addr as *const f64).read_unaligned()
     }
 
     unsafe fn get_str(&self, addr: usize) -> &str {
@@ -186,7 +186,7 @@ pub trait Memory {
     }
 
     unsafe fn put_usize(&mut self, v: usize, pos: usize) {
-        *(pos as *mut usize) = v;
+        (pos as *mut usize).write_unaligned(v);
     }
 
     fn compile_usize(&mut self, v: usize) {
@@ -208,7 +208,7 @@ pub trait Memory {
     }
 
     unsafe fn put_isize(&mut self, v: isize, pos: usize) {
-        *(pos as *mut isize) = v;
+        (pos as *mut isize).write_unaligned(v);
     }
 
     fn compile_isize(&mut self, v: isize) {
@@ -223,7 +223,7 @@ pub trait Memory {
         }
     }
     unsafe fn put_f64(&mut self, v: f64, pos: usize) {
-        *(pos as *mut f64) = v;
+        (pos as *mut f64).write_unaligned(v);
     }
 
     fn compile_f64(&mut self, v: f64) {
-- 
2.43.0


From 12a73cb11991de124c28ad652891f0d87e07e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 18/23] fix: a prefix without digits is not a number

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index cd15872..3c7d44d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,9 @@ pub fn uint_in_base(input: &[u8], base: isize) -> IResult<isize> {
         value = value.wrapping_mul(base).wrapping_add(d);
         len = len + 1;
     }
+    if len == 0 {
+        return IResult::Err(RESULT_OUT_OF_RANGE);
+    }
     bytes = &bytes[len..];
     IResult::Done(bytes, value)
 }
-- 
2.43.0


From df64ace9815f3625a45046279fc5ec576f1f360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:56 +0000
Subject: [PATCH 19/23] fix: float literals with large exponents keep their
 value

---
 src/core.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core.rs b/src/core.rs
index 3d4cecb..df8d79c 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -2267,9 +2267,17 @@ pub trait Core: Sized {
             if self.references().idx_flit == 0 {
                 self.set_error(Some(UNSUPPORTED_OPERATION));
             } else {
+                // Values beyond the limits are infinite or zero whatever the significand.
+                let exponent = exponent_sign
+                    .wrapping_mul(exponent_part)
+                    .max(-600)
+                    .min(600) as i32;
+                // Scale in two steps, a large power of ten alone may be out of range.
+                let half = if exponent.abs() > 300 { exponent / 2 } else { 0 };
                 let value = (significand_sign as f64)
                     * (integer_part as f64 + fraction_part)
-                    * ((10.0f64).powi((exponent_sign.wrapping_mul(exponent_part)) as i32) as f64);
+                    * (10.0f64).powi(exponent - half)
+                    * (10.0f64).powi(half);
                 if self.state().is_compiling {
                     self.compile_float(value);
                 } else {
-- 
2.43.0


From 972c29bd4ade9db028653f1aeb4b2d7c7146cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 20/23] fix: operator is the identifier of the first task

Task identifiers start at 1 since 0 is not a task; 'operator resume' failed.
---
 core.fth | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core.fth b/core.fth
index 7bf20b7..876a113 100644
--- a/core.fth
+++ b/core.fth
@@ -76,7 +76,7 @@ variable >in  0 >in !
 : xtime ( t0 xt -- )   2>r r@ execute 2r> (xtime) ;
 
 \ Multitasker
-0 constant operator
+1 constant operator
 : nod   begin pause again ;
 : halt ( n -- )   activate nod ;
 : stop   me suspend pause ;
-- 
2.43.0


From 778e2127ae7bd4081c40b75406e8f8b159c5d0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:05 +0000
Subject: [PATCH 21/23] fix: aborted loads no longer fill the stack of sources

---
 core.fth | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core.fth b/core.fth
index 876a113..c19da79 100644
--- a/core.fth
+++ b/core.fth
@@ -105,6 +105,8 @@ defer restore-input   ' _restore-input  ' restore-input  defer!
 \ NOTE: multitasking is not considered here.
 create src-stack 16 , 0 , 16 2* cells allot
 : save-source
+    \ Nothing is being loaded: forget the sources of loads that were aborted.
+    source-id 0= if 0 src-stack cell+ ! then
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
-- 
2.43.0


From 34f0cec6fab29390fd6c62d96a0161f151fd8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:48 +0000
Subject: [PATCH 22/23] fix: loading a nested file keeps the line number of the
 outer file

---
 core.fth | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core.fth b/core.fth
index c19da79..b5d43a0 100644
--- a/core.fth
+++ b/core.fth
@@ -104,17 +104,22 @@ defer restore-input   ' _restore-input  ' restore-input  defer!
 \ content: | capacity | count=N | source-idx1 | source-id1 | ... | source_idxN | source-idN |
 \ NOTE: multitasking is not considered here.
 create src-stack 16 , 0 , 16 2* cells allot
+\ Number of the line being loaded, and those of the sources on src-stack.
+variable load-line#
+create src-lines 17 cells allot
 : save-source
     \ Nothing is being loaded: forget the sources of loads that were aborted.
     source-id 0= if 0 src-stack cell+ ! then
     source-id source-idx
     src-stack 2@ over > if
       ( src-id src-idx count ) 1+ dup src-stack cell+ !
+      load-line# @ over cells src-lines + !
       ( src-id src-idx count+1 ) 2* cells src-stack +  2!
     else abort then ;
 : restore-source
     src-stack 2@ drop  dup 0 > if
       ( count ) dup 1- src-stack cell+ !
+      ( count ) dup cells src-lines + @ load-line# !
       ( count ) 2* cells src-stack + 2@
       source-idx!  source-id!
     else abort then ;
@@ -126,7 +131,6 @@ create src-stack 16 , 0 , 16 2* cells allot
       ?stacks else interpret-token ?stacks then
     repeat ;
 \ Multitasking is not considered here.
-variable load-line#
 : load-source-file ( -- )
     begin
       source-id load-line
-- 
2.43.0


From af7157f80d0c705cca359426207823f3f00e6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:07 +0000
Subject: [PATCH 23/23] fix: postpone of an immediate word compiles that word

---
 src/core.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index df8d79c..8b99128 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -1889,9 +1889,15 @@ pub trait Core: Sized {
             match self.find(&last_token) {
                 Some(xt) => {
                     self.set_last_token(last_token);
-                    self.compile_integer(xt as isize);
-                    let idx = self.references().idx__postpone;
-                    self.compile_word(idx);
+                    if self.wordlist()[xt].is_immediate() {
+                        // Compiling an immediate word is executing it.
+                        let compilation_semantics = self.wordlist()[xt].compilation_semantics;
+                        compilation_semantics(self, xt);
+                    } else {
+                        self.compile_integer(xt as isize);
+                        let idx = self.references().idx__postpone;
+                        self.compile_word(idx);
+                    }
                 }
                 None => {
                     self.set_last_token(last_token);
-- 
2.43.0

