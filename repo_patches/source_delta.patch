From 79651f764964df76dc0622730fb6b8757a123407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 01/13] fix: SHL/SHR by the operand width or more yield 0
 instead of overflowing

---
 src/bit_shift_functions.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/bit_shift_functions.rs b/src/bit_shift_functions.rs
index 48510fc..e34bd39 100644
--- a/src/bit_shift_functions.rs
+++ b/src/bit_shift_functions.rs
@@ -4,56 +4,56 @@
 #[no_mangle]
 /// Shift left operation on bytes
 pub fn SHL__BYTE(input: u8, n: u32) -> u8 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on word
 pub fn SHL__WORD(input: u16, n: u32) -> u16 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on dword
 pub fn SHL__DWORD(input: u32, n: u32) -> u32 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift left operation on lword
 pub fn SHL__LWORD(input: u64, n: u32) -> u64 {
-    input << n
+    input.checked_shl(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on bytes
 pub fn SHR__BYTE(input: u8, n: u32) -> u8 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on word
 pub fn SHR__WORD(input: u16, n: u32) -> u16 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on dword
 pub fn SHR__DWORD(input: u32, n: u32) -> u32 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
 #[no_mangle]
 /// Shift right operation on lword
 pub fn SHR__LWORD(input: u64, n: u32) -> u64 {
-    input >> n
+    input.checked_shr(n).unwrap_or(0)
 }
 
 #[allow(non_snake_case)]
-- 
2.43.0


From 48e42454a538338d7cd81b26e770bed05c493334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 02/13] fix: TP stays idle without a rising edge and ends its
 pulse when IN fell meanwhile

---
 src/timers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 1661c8d..021d693 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -88,8 +88,12 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         // If time elapsed within range
         if timer.is_in_preset_range() {
             true
+        } else if timer.input_rising_edge() {
+            //The pulse is over and the input rose again, start a new one
+            timer.start();
+            true
         } else {
-            if timer.input_falling_edge() {
+            if !timer.input {
                 timer.reset()
             }
             false
@@ -98,7 +102,7 @@ pub extern "C" fn TP(timer: &mut TimerParams) {
         timer.start();
         true
     } else {
-        unreachable!("We should not get here, if we do write the failing test for it.")
+        false
     };
     timer.set_output(output);
     timer.input_edge.set(timer.input);
-- 
2.43.0


From cd48505ec7fc2988b4af5b95a7d384136143662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 03/13] fix: timers decide ET and Q by one reading of the clock

---
 src/timers.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index 021d693..ba48b45 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -46,20 +46,14 @@ impl TimerParams {
     }
 
     /// Sets the elapsed time to either the preset time or the real elapsed time, whatever is smaller
-    fn update_elapsed_time(&mut self) {
-        if self.is_running() {
-            self.set_elapsed_time(std::cmp::min(
-                self.preset_time,
-                self.get_run_time()
-                    .expect("Timer should be running")
-                    .as_nanos() as i64,
-            ));
-        }
-    }
-
-    fn is_in_preset_range(&self) -> bool {
-        let duration = Duration::from_nanos(self.preset_time as u64);
-        self.get_run_time().map_or(false, |it| it <= duration)
+    /// Returns true if the timer is still within its preset time
+    /// Both are decided by the same reading of the clock, so they can not contradict each other
+    fn update_elapsed_time(&mut self) -> bool {
+        let Some(run_time) = self.get_run_time() else {
+            return false;
+        };
+        self.set_elapsed_time(std::cmp::min(self.preset_time, run_time.as_nanos() as i64));
+        run_time <= Duration::from_nanos(self.preset_time as u64)
     }
 
     fn get_run_time(&self) -> Option<Duration> {
@@ -84,9 +78,8 @@ impl TimerParams {
 pub extern "C" fn TP(timer: &mut TimerParams) {
     //If timer is active (start time set)
     let output = if timer.is_running() {
-        timer.update_elapsed_time();
         // If time elapsed within range
-        if timer.is_in_preset_range() {
+        if timer.update_elapsed_time() {
             true
         } else if timer.input_rising_edge() {
             //The pulse is over and the input rose again, start a new one
@@ -115,8 +108,7 @@ pub extern "C" fn TON(timer: &mut TimerParams) {
         //Timer was strarted at some point
         if timer.is_running() {
             //Timer is still running
-            timer.update_elapsed_time();
-            !timer.is_in_preset_range()
+            !timer.update_elapsed_time()
             //Timer stopped, but the input is new
         } else if timer.input_rising_edge() {
             timer.start();
@@ -146,8 +138,7 @@ pub extern "C" fn TOF(timer: &mut TimerParams) {
         timer.start();
         true
     } else if timer.is_running() {
-        timer.update_elapsed_time();
-        timer.is_in_preset_range()
+        timer.update_elapsed_time()
     } else {
         false
     };
-- 
2.43.0


From d6b0a30043ccd7336a698c905de7ba8b1f236069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:39 +0000
Subject: [PATCH 04/13] fix: a timer instance in zeroed memory is idle, not
 running since boot

---
 src/timers.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/timers.rs b/src/timers.rs
index ba48b45..3fdbe61 100644
--- a/src/timers.rs
+++ b/src/timers.rs
@@ -20,6 +20,8 @@ pub struct TimerParams {
     output: bool,
     elapsed_time: Time,
     input_edge: Signal,
+    // An instance starts out as zeroed memory, which is not a `None` start time but one at 0
+    running: bool,
     start_time: Option<Instant>,
 }
 
@@ -28,15 +30,17 @@ impl TimerParams {
     /// It does not take into consideration the preset/range for the timer
     /// Only if a start time has been set.
     fn is_running(&self) -> bool {
-        self.start_time.is_some()
+        self.running
     }
 
     fn start(&mut self) {
+        self.running = true;
         self.start_time = Some(Instant::now());
         self.set_elapsed_time(0);
     }
 
     fn reset(&mut self) {
+        self.running = false;
         self.start_time = None;
         self.set_elapsed_time(0);
     }
@@ -57,7 +61,9 @@ impl TimerParams {
     }
 
     fn get_run_time(&self) -> Option<Duration> {
-        self.start_time.map(|it| it.elapsed())
+        self.start_time
+            .filter(|_| self.running)
+            .map(|it| it.elapsed())
     }
 
     fn set_output(&mut self, value: bool) {
-- 
2.43.0


From 107726ff401596f738c500620509fe1f7aec06ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:34 +0000
Subject: [PATCH 05/13] fix: CONCAT_DATE/CONCAT_TOD for LINT and ULINT reject
 values beyond 32 bits instead of truncating them

---
 src/date_time_extra_functions.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 2fe83b9..911c5ec 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -60,7 +60,12 @@ pub extern "C" fn CONCAT_DATE__UDINT(in1: u32, in2: u32, in3: u32) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a value does not fit the calendar function's type -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -69,7 +74,12 @@ pub extern "C" fn CONCAT_DATE__LINT(in1: i64, in2: i64, in3: i64) -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_DATE__ULINT(in1: u64, in2: u64, in3: u64) -> i64 {
-    concat_date(in1 as i32, in2 as u32, in3 as u32)
+    // if a value does not fit the calendar function's type -> panic
+    concat_date(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -144,7 +154,13 @@ pub extern "C" fn CONCAT_TOD__UDINT(in1: u32, in2: u32, in3: u32, in4: u32) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a value does not fit the time function's type -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
@@ -153,7 +169,13 @@ pub extern "C" fn CONCAT_TOD__LINT(in1: i64, in2: i64, in3: i64, in4: i64) -> i6
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i64 {
-    concat_tod(in1 as u32, in2 as u32, in3 as u32, in4 as u32)
+    // if a value does not fit the time function's type -> panic
+    concat_tod(
+        in1.try_into().unwrap(),
+        in2.try_into().unwrap(),
+        in3.try_into().unwrap(),
+        in4.try_into().unwrap(),
+    )
 }
 
 /// .
-- 
2.43.0


From 68c840d9a0ce711fa0ac07cc26df52dbe709c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:44 +0000
Subject: [PATCH 06/13] fix: CONCAT_TOD rejects 1000 and more milliseconds in a
 minute's last second

---
 src/date_time_extra_functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/date_time_extra_functions.rs b/src/date_time_extra_functions.rs
index 911c5ec..2405e30 100644
--- a/src/date_time_extra_functions.rs
+++ b/src/date_time_extra_functions.rs
@@ -184,6 +184,10 @@ pub extern "C" fn CONCAT_TOD__ULINT(in1: u64, in2: u64, in3: u64, in4: u64) -> i
 #[allow(non_snake_case)]
 #[no_mangle]
 pub extern "C" fn concat_tod(in1: u32, in2: u32, in3: u32, in4: u32) -> i64 {
+    // chrono takes milliseconds from 1000 on for a leap second, which TOD does not have
+    if in4 >= 1000 {
+        panic!("Invalid parameters, cannot create TOD");
+    }
     let dt = NaiveDate::from_ymd_opt(1970, 1, 1)
         .and_then(|date| date.and_hms_milli_opt(in1, in2, in3, in4))
         .expect("Invalid parameters, cannot create TOD");
-- 
2.43.0


From a58360cc08133753a6d991c1c6e809c5941b8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 07/13] fix: DELETE and REPLACE reject a negative character
 count

In release builds the count wrapped around the address space and characters were duplicated instead.
---
 src/string_functions.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index dfbb925..4499702 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -514,6 +514,9 @@ pub unsafe extern "C" fn DELETE_EXT__STRING(
     }
     // correct for 0-indexing
     let pos = pos as usize - 1;
+    if num_chars_to_delete < 0 {
+        panic!("Number of characters cannot be negative.")
+    }
     let ndel = num_chars_to_delete as usize;
     if ndel + pos > nchars {
         panic!(
@@ -557,6 +560,9 @@ pub unsafe extern "C" fn DELETE_EXT__WSTRING(
     }
     // correct for 0-indexing
     let pos = pos as usize - 1;
+    if num_chars_to_delete < 0 {
+        panic!("Number of characters cannot be negative.")
+    }
     let ndel = num_chars_to_delete as usize;
     if ndel + pos > nchars {
         panic!(
@@ -602,6 +608,9 @@ pub unsafe extern "C" fn REPLACE_EXT__STRING(
     }
     // correct for 0-indexing
     let pos = (pos - 1) as usize;
+    if num_chars_to_replace < 0 {
+        panic!("Number of characters cannot be negative.")
+    }
     let nreplace = num_chars_to_replace as usize;
 
     if nreplace + pos > nbase {
@@ -650,6 +659,9 @@ pub unsafe extern "C" fn REPLACE_EXT__WSTRING(
     }
     // correct for 0-indexing
     let pos = (pos - 1) as usize;
+    if num_chars_to_replace < 0 {
+        panic!("Number of characters cannot be negative.")
+    }
     let nreplace = num_chars_to_replace as usize;
     if nreplace + pos > nbase {
         panic!(
-- 
2.43.0


From ae6a2ad1d214faa0c8440bdef660890d0873768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 08/13] fix: CONCAT without arguments leaves an empty string

The destination kept its old content, unterminated if it was never set.
---
 src/string_functions.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index 4499702..d304d23 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -727,6 +727,7 @@ pub unsafe extern "C" fn CONCAT_EXT__STRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    *dest = 0;
 
     0
 }
@@ -775,6 +776,7 @@ pub unsafe extern "C" fn CONCAT_EXT__WSTRING(
         EncodedCharsIter::decode(*argv).encode(&mut dest);
         argv = argv.add(1);
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From 2ce1640a7eac66fe2504b89edcf89906219fd7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 09/13] fix: a null string pointer reads as the empty string

A slice must not be made from a null pointer, not even an empty one.
---
 src/string_functions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/string_functions.rs b/src/string_functions.rs
index d304d23..2508a1c 100644
--- a/src/string_functions.rs
+++ b/src/string_functions.rs
@@ -33,6 +33,9 @@ pub unsafe fn get_null_terminated_len<T: num::PrimInt>(src: *const T) -> usize {
 ///
 /// Works on raw pointers, inherently unsafe.
 pub unsafe fn ptr_to_slice<'a, T: num::PrimInt>(src: *const T) -> &'a [T] {
+    if src.is_null() {
+        return &[];
+    }
     let nbytes = get_null_terminated_len(src);
     std::slice::from_raw_parts(src, nbytes)
 }
-- 
2.43.0


From 62977a2d54e4e830f691f3af392364e4aa178bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 10/13] fix: STRING_TO_WSTRING terminates its result

Stale content of the destination was left standing behind the converted text.
---
 src/string_conversion.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/string_conversion.rs b/src/string_conversion.rs
index 2b18a2e..3a002fd 100644
--- a/src/string_conversion.rs
+++ b/src/string_conversion.rs
@@ -39,6 +39,7 @@ pub unsafe extern "C" fn STRING_TO_WSTRING_EXT(src: *const u8, dest: *mut u16) -
             dest = dest.add(1);
         }
     }
+    *dest = 0;
 
     0
 }
-- 
2.43.0


From 043ebef41f3fc42ddf9e6c0cdf1e12df90f68972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 11/13] fix: large negative REAL and LREAL convert in
 scientific notation

Only large positive values did; the digits of a large negative value did not fit the string and the conversion panicked.
---
 src/extra_functions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index 441fe5c..ab93174 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -59,7 +59,7 @@ pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
-    if input.floor() < 1e14 {
+    if input.abs().floor() < 1e14 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
@@ -77,7 +77,7 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     // float: 23 bits are used for the mantissa (about 7 decimal digits)
 
     // TODO: discuss when scientific notation should be displayed
-    if input.floor() < 1e6 {
+    if input.abs().floor() < 1e6 {
         write!(&mut *buf, "{input:.6}").unwrap()
     } else {
         write!(&mut *buf, "{input:.6e}").unwrap()
-- 
2.43.0


From ba3b5583d44ab0e04d8be5a07b9e8cfee8cd77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 12/13] fix: conversions to STRING terminate their result

Stale content of the destination was left standing behind the converted text.
---
 src/extra_functions.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index ab93174..bacdbed 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -24,7 +24,7 @@ const DEFAULT_STRING_LEN: usize = 81;
 pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -36,7 +36,7 @@ pub unsafe extern "C" fn BYTE_TO_STRING_EXT(input: u8, dest: *mut u8) -> i32 {
 pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -47,7 +47,7 @@ pub unsafe extern "C" fn LWORD_TO_STRING_EXT(input: u64, dest: *mut u8) -> i32 {
 #[no_mangle]
 pub unsafe extern "C" fn LINT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-    write!(&mut *buf, "{input}").unwrap();
+    write!(&mut *buf, "{input}\0").unwrap();
 
     0
 }
@@ -60,9 +60,9 @@ pub unsafe extern "C" fn LREAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
     // double: 52 bits are used for the mantissa (about 16 decimal digits)
     if input.abs().floor() < 1e14 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -78,9 +78,9 @@ pub unsafe extern "C" fn REAL_TO_STRING_EXT(input: f64, dest: *mut u8) -> i32 {
 
     // TODO: discuss when scientific notation should be displayed
     if input.abs().floor() < 1e6 {
-        write!(&mut *buf, "{input:.6}").unwrap()
+        write!(&mut *buf, "{input:.6}\0").unwrap()
     } else {
-        write!(&mut *buf, "{input:.6e}").unwrap()
+        write!(&mut *buf, "{input:.6e}\0").unwrap()
     }
 
     0
@@ -218,7 +218,7 @@ pub unsafe extern "C" fn DT_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}-{time}").unwrap();
+    write!(&mut *buf, "{date}-{time}\0").unwrap();
 
     0
 }
@@ -232,7 +232,7 @@ pub unsafe extern "C" fn DATE_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let date = datetime.to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{date}").unwrap();
+    write!(&mut *buf, "{date}\0").unwrap();
 
     0
 }
@@ -246,7 +246,7 @@ pub unsafe extern "C" fn TOD_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
     let time = datetime.time().to_string();
     let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
 
-    write!(&mut *buf, "{time}").unwrap();
+    write!(&mut *buf, "{time}\0").unwrap();
 
     0
 }
-- 
2.43.0


From 0f0d54cb251321f15462ce8dcbeb09b5bebaaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:06 +0000
Subject: [PATCH 13/13] fix: TIME_TO_STRING of negative durations, and its
 termination

A negative duration came out with its days wrapped to 32 bits and the rest counted from the day before.
The end of the text so far was found by looking for a zero byte, which only a zeroed destination has there.
---
 src/extra_functions.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/extra_functions.rs b/src/extra_functions.rs
index bacdbed..8bf579f 100644
--- a/src/extra_functions.rs
+++ b/src/extra_functions.rs
@@ -172,30 +172,34 @@ pub extern "C" fn TIME() -> i64 {
 #[allow(non_snake_case)]
 #[no_mangle]
 pub unsafe extern "C" fn TIME_TO_STRING_EXT(input: i64, dest: *mut u8) -> i32 {
-    let mut dest = dest;
+    let mut buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
+    if input < 0 {
+        write!(buf, "-").unwrap();
+    }
     let literals = parse_timestamp(input);
     literals.iter().filter(|&it| it.0 != 0).for_each(|it| {
-        let buf = core::slice::from_raw_parts_mut(dest, DEFAULT_STRING_LEN);
-        write!(&mut *buf, "{}{}", it.0, it.1).unwrap();
-        let idx = buf.iter().position(|&c| c == 0).unwrap();
-        dest = dest.add(idx);
+        write!(buf, "{}{}", it.0, it.1).unwrap();
     });
+    write!(buf, "\0").unwrap();
 
     0
 }
 
 fn parse_timestamp<'a>(timestamp_nanos: i64) -> [(u32, &'a str); 7] {
-    let datetime = chrono::Utc.timestamp_nanos(timestamp_nanos);
-    let (nanos, micros, millis, seconds, minutes, hours) = (
-        datetime.timestamp_subsec_nanos() % 1000,
-        datetime.timestamp_subsec_micros() % 1000,
-        datetime.timestamp_subsec_millis(),
-        datetime.second(),
-        datetime.minute(),
-        datetime.hour(),
+    let magnitude = timestamp_nanos.unsigned_abs();
+    let total_seconds = magnitude / 1_000_000_000;
+    let subsec_nanos = (magnitude % 1_000_000_000) as u32;
+    let (nanos, micros, millis) = (
+        subsec_nanos % 1000,
+        subsec_nanos / 1000 % 1000,
+        subsec_nanos / 1_000_000,
+    );
+    let (seconds, minutes, hours, days) = (
+        (total_seconds % 60) as u32,
+        (total_seconds / 60 % 60) as u32,
+        (total_seconds / 3600 % 24) as u32,
+        (total_seconds / 86_400) as u32,
     );
-    let nanos_per_day = 1e9 as i64 * 3600 * 24;
-    let days = (timestamp_nanos / nanos_per_day) as u32;
 
     [
         (days, "d"),
-- 
2.43.0

