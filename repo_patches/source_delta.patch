From 9cd260e449edb2c93abd38470586e6fdb19d1708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 01/19] fix: enforce max_call_depth when calling closures

Ring calls (run/call/ask) pushed call frames without the depth check custom
block calls perform, so runaway ring recursion grew the call stack without
bound instead of raising a script error.
---
 src/process.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 705ee2f..9ee62e8 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -943,6 +943,11 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 self.pos = aft_pos;
             }
             Instruction::CallClosure { new_entity, args } => {
+                let limit = global_context.settings.max_call_depth;
+                if self.call_stack.len() >= limit {
+                    return Err(ErrorCause::CallDepthLimit { limit });
+                }
+
                 let (closure_pos, locals) = prep_call_closure(mc, &mut self.value_stack, args)?;
                 let entity = match new_entity {
                     false => self.call_stack.last().unwrap().entity,
-- 
2.43.0


From 074dec4ccc2c025cb458037cd1ad3531eb40e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/19] fix: compute list index sets before borrowing the list
 mutably

Inserting into, assigning to or deleting from a list with an index list that is
(or contains) that same list panicked with a RefCell double borrow.
---
 src/process.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 9ee62e8..2765ca7 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -647,9 +647,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
                 let val = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len() + 1)?;
+                let len = list.borrow().len();
+                let index_set = ops::prep_index_set(&index, len + 1)?; // index might contain (or be) the list itself, so don't borrow mutably yet
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.insert(index, val.clone());
                 }
@@ -698,9 +699,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 let value = self.value_stack.pop().unwrap();
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let len = list.borrow().len();
+                let index_set = ops::prep_index_set(&index, len)?; // index might contain (or be) the list itself, so don't borrow mutably yet
+                let mut list = list.borrow_mut(mc);
                 for index in index_set {
                     list[index] = value.clone();
                 }
@@ -728,9 +730,10 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
             Instruction::ListRemove => {
                 let list = self.value_stack.pop().unwrap().as_list()?;
                 let index = self.value_stack.pop().unwrap();
-                let mut list = list.borrow_mut(mc);
 
-                let index_set = ops::prep_index_set(&index, list.len())?;
+                let len = list.borrow().len();
+                let index_set = ops::prep_index_set(&index, len)?; // index might contain (or be) the list itself, so don't borrow mutably yet
+                let mut list = list.borrow_mut(mc);
                 for index in index_set.into_iter().rev() {
                     list.remove(index);
                 }
-- 
2.43.0


From a4a0268b0452b59633e9727709f6593f4a0f470f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 03/19] fix: saturate the wake-up time of long sleeps

Waiting for a very large (or infinite) number of seconds overflowed the
addition to the current time: a panic in debug builds, an immediate wake-up in
release builds.
---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 2765ca7..37ca5bf 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1137,7 +1137,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     self.pos = aft_pos;
                     return Ok(ProcessStep::Yield);
                 }
-                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()? + ms as u64, aft_pos });
+                self.defer = Some(Defer::Sleep { until: system.time(Precision::Medium).to_arbitrary_ms()?.saturating_add(ms as u64), aft_pos });
             }
             Instruction::PushRealTime { query } => {
                 let t = system.time(Precision::High).to_real_local()?;
-- 
2.43.0


From ae0ef9c214f81b3a7ee9c2f34ee8277cf1a82f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 04/19] fix: reject out of range notes instead of wrapping them

Note numbers and octaves were truncated to a byte before the midi range check,
so e.g. note 300 was played as note 44, and large octaves overflowed.
---
 src/process.rs | 5 ++---
 src/runtime.rs | 6 +++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 37ca5bf..770398a 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1534,9 +1534,8 @@ mod ops {
         if let Ok(v) = value.as_number().map(Number::get) {
             let vv = v as i64;
             if v != vv as f64 { return Err(ErrorCause::NoteNotInteger { note: v }); }
-            let res = Note::from_midi(vv as u8, false);
-            if vv < 0 || res.is_none() { return Err(ErrorCause::NoteNotMidi { note: vv.to_compact_string() }); }
-            return Ok(res.unwrap());
+            let res = u8::try_from(vv).ok().and_then(|x| Note::from_midi(x, false));
+            return res.ok_or_else(|| ErrorCause::NoteNotMidi { note: vv.to_compact_string() });
         }
         let s = value.as_text()?;
         Note::from_name(&s).ok_or_else(|| ErrorCause::NoteNotMidi { note: s.as_str().into() })
diff --git a/src/runtime.rs b/src/runtime.rs
index bad5011..9beb1be 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -1887,11 +1887,11 @@ impl Note {
         }
         let mut octave = octave?;
         if note >= 3 {
-            octave -= 1;
+            octave = octave.checked_sub(1)?;
         }
 
-        let value = 21 + note + 12 * octave + delta;
-        if value >= 0 { Self::from_midi(value as u8, natural) } else { None }
+        let value = octave.checked_mul(12)?.checked_add(21 + note + delta)?;
+        Self::from_midi(u8::try_from(value).ok()?, natural)
     }
     /// Gets the stored midi value.
     pub fn get_midi(self) -> (u8, bool) {
-- 
2.43.0


From 945a413286397e49a6e00ec9ee915fe365d466b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 05/19] fix: don't sample random numbers from ranges beyond i64
 or f64

Whole numbers beyond the i64 range were silently replaced by the ends of that
range, so a random number between 1e300 and 1e300 was 9223372036854775807.
---
 src/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 770398a..cbba5b4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1857,7 +1857,8 @@ mod ops {
             BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
-                let res = if a == libm::round(a) && b == libm::round(b) {
+                Number::new(b - a)?; // the range must not be wider than what we can sample from
+                let res = if a == libm::round(a) && b == libm::round(b) && a >= i64::MIN as f64 && b < i64::MAX as f64 {
                     let (a, b) = (a as i64, b as i64);
                     system.rand(a..=b) as f64
                 } else {
-- 
2.43.0


From ed307332f5c74cb81282c129787a308f6e5086e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 06/19] fix: avoid overflow when sizing a list of combinations

The product of the list lengths overflowed even if a later list is empty, which
makes the actual result empty.
---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index cbba5b4..481b988 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1667,7 +1667,7 @@ mod ops {
                 }
             }
         }
-        let mut res = VecDeque::with_capacity(sources.iter().fold(1, |a, b| a * b.borrow().len()));
+        let mut res = VecDeque::with_capacity(sources.iter().fold(1usize, |a, b| a.saturating_mul(b.borrow().len())));
         let mut partial = VecDeque::with_capacity(sources.len());
         cartesian_product_impl(mc, &mut res, &mut partial, sources);
         res
-- 
2.43.0


From fa3c21f1a3ce51354d2b0e9c667f2f111af0c3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 07/19] fix: handle queued script starts when scripts are
 stopped by a block

After 'stop this script' a queued start of the script was not begun until some
other script happened to yield, and 'stop all' left queued starts behind, which
then ran after everything was supposed to have stopped.
---
 src/project.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index 1033ce7..834955b 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -389,10 +389,14 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     AbortMode::Current => {
                         debug_assert!(!proc.is_running());
                         self.state.processes.remove(proc_key);
+                        all_contexts_consumer.do_once(self); // need to consume all contexts after dropping a process
                         ProjectStep::Normal
                     }
                     AbortMode::All => {
                         debug_assert!(!proc.is_running());
+                        for script in self.scripts.iter_mut() {
+                            script.context_queue.clear();
+                        }
                         self.state.processes.clear();
                         self.state.process_queue.clear();
                         ProjectStep::Normal
-- 
2.43.0


From dd119af48d864c38daddc77961e7121890b3d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 08/19] fix: don't panic when a broadcast restarts the
 broadcasting script

A script which broadcasts the message it is itself started by is restarted
while the message is delivered; every later receiver then panicked looking up
the broadcaster.
---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 834955b..317f80f 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -369,7 +369,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                                     }
                                 }
 
-                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: Some(self.state.processes.get(proc_key).unwrap()) });
+                                let state = C::ProcessState::from(ProcessKind { entity: self.scripts[i].entity, dispatcher: self.state.processes.get(proc_key) }); // the broadcaster itself might have been restarted by this message
 
                                 all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                                 self.scripts[i].stop_all(&mut self.state);
-- 
2.43.0


From 6067c948a2fc12ac8742fa7523bc0fb0488809fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 09/19] fix: accept key up inputs

Key up is a documented, optional input, but sending it panicked.
---
 src/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/project.rs b/src/project.rs
index 317f80f..bc11a5b 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -261,7 +261,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
                     }
                 }
             }
-            Input::KeyUp { .. } => unimplemented!(),
+            Input::KeyUp { .. } => (), // there are currently no hat blocks which respond to releasing a key
         }
     }
     pub fn step(&mut self, mc: &Mutation<'gc>) -> ProjectStep<'gc, C, S> {
-- 
2.43.0


From f4368368004f3e32aea7bb55b69a689c0ec907c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 10/19] fix: start queued scripts when a script ends in the
 same step as a message arrives

---
 src/project.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/project.rs b/src/project.rs
index bc11a5b..c5001ef 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -288,6 +288,9 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Project<'gc, C, S> {
             }
         }
 
+        // a process can end during this step, so contexts may need to be consumed again even if it was already done for a message
+        let mut all_contexts_consumer = AllContextsConsumer::new();
+
         let (proc_key, proc) = loop {
             match self.state.process_queue.pop_front() {
                 None => {
-- 
2.43.0


From eb1dddb501ed6a88d603999511268eb3d7b5b784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 11/19] fix: don't swap the coordinates of point towards xy

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 481b988..cc7b80d 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1451,8 +1451,8 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                 target => return Err(ErrorCause::ConversionError { got: target.get_type(), expected: Type::Entity }),
             }
             Instruction::PointTowardsXY => {
-                let x = self.value_stack.pop().unwrap().as_number()?;
                 let y = self.value_stack.pop().unwrap().as_number()?;
+                let x = self.value_stack.pop().unwrap().as_number()?;
 
                 drop(global_context_raw);
                 self.defer = Some(Defer::Command {
-- 
2.43.0


From 394ce63ca7d5de5d351c46de73da037effd2ec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 12/19] fix: modulus of exact multiples is zero for operands of
 opposite sign

---
 src/util.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 17d6569..54dd83f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -59,5 +59,6 @@ pub fn base64_decode(content: &str) -> Result<Vec<u8>, Base64DecodeError> {
 }
 
 pub fn modulus<T: num_traits::Float>(a: T, b: T) -> T {
-    if a.is_sign_positive() == b.is_sign_positive() { a % b } else { b + (a % -b) }
+    let rem = a % b;
+    if rem.is_zero() || rem.is_sign_positive() == b.is_sign_positive() { rem } else { b + rem }
 }
-- 
2.43.0


From 89851506ba46ce96c8d5c55d631519a0c3652d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:15 +0000
Subject: [PATCH 13/19] fix: restore the cursor when interactive mode panics

With panic = "abort" (the release profile) the exit guard does not run, and
the panic hook only left raw mode without showing the cursor again. Both were
also installed only after the terminal had been changed.
---
 src/cli.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 61e4f76..e29b0ec 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -174,8 +174,6 @@ fn open_project<'a>(content: &str, role: Option<&'a str>) -> Result<(CompactStri
 }
 
 fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: CompactString, role: &ast::Role, overrides: Config<C, StdSystem<C>>, clock: Arc<Clock>) {
-    terminal::enable_raw_mode().unwrap();
-    execute!(stdout(), cursor::Hide).unwrap();
     let _tty_mode_guard = AtExit::new(|| {
         terminal::disable_raw_mode().unwrap();
         execute!(stdout(), cursor::Show).unwrap()
@@ -184,9 +182,13 @@ fn run_proj_tty<C: CustomTypes<StdSystem<C>>>(project_name: &str, server: Compac
     let old_panic_hook = std::panic::take_hook();
     std::panic::set_hook(Box::new(move |ctx| {
         let _ = terminal::disable_raw_mode();
+        let _ = execute!(stdout(), cursor::Show);
         old_panic_hook(ctx);
     }));
 
+    terminal::enable_raw_mode().unwrap();
+    execute!(stdout(), cursor::Hide).unwrap();
+
     let update_flag = Rc::new(Cell::new(false));
     let input_queries = Rc::new(RefCell::new(VecDeque::new()));
     let mut term_size = terminal::size().unwrap();
-- 
2.43.0


From 15564affb4546166f427ceea6dff84f66d5fb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:07 +0000
Subject: [PATCH 14/19] fix: unescape names of images and audio in NetsBlox
 JSON

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 9beb1be..3dd5d0b 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -793,7 +793,7 @@ impl SimpleValue {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
                                         "center-x" => center_x = Some(value.as_str().parse().ok().and_then(|x| Number::new(x).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
                                         "center-y" => center_y = Some(value.as_str().parse().ok().and_then(|y| Number::new(y).ok()).ok_or(FromNetsBloxJsonError::BadImage)?),
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadImage)?,
                                         "image" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:image/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadImage)?),
                                             _ => return Err(FromNetsBloxJsonError::BadImage),
@@ -815,7 +815,7 @@ impl SimpleValue {
                             loop {
                                 match tokenizer.next() {
                                     Some(Ok(xmlparser::Token::Attribute { local, value, .. })) => match local.as_str() {
-                                        "name" => name = value.as_str().into(),
+                                        "name" => name = ast::util::xml_unescape(value.as_str()).map_err(|_| FromNetsBloxJsonError::BadAudio)?,
                                         "sound" => match value.as_str().split(";base64,").nth(1) {
                                             Some(raw) if value.as_str().starts_with("data:audio/") => content = Some(crate::util::base64_decode(raw).map_err(|_| FromNetsBloxJsonError::BadAudio)?),
                                             _ => return Err(FromNetsBloxJsonError::BadAudio),
-- 
2.43.0


From d31f9de2b0d9d98d07d0a3ca2f9e6d99b8fb7dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 15/19] fix: release a list of coordinates before its
 goto/point command is handed to the host

---
 src/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index cc7b80d..d0a029e 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1433,6 +1433,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
 
+                    drop(target);
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
                         key: system.perform_command(mc, Command::GotoXY { x, y }, self)?,
@@ -1466,6 +1467,7 @@ impl<'gc, C: CustomTypes<S>, S: System<C>> Process<'gc, C, S> {
                     if target.len() != 2 { return Err(ErrorCause::InvalidListLength { expected: 2, got: target.len() }); }
                     let (x, y) = (target[0].as_number()?, target[1].as_number()?);
 
+                    drop(target);
                     drop(global_context_raw);
                     self.defer = Some(Defer::Command {
                         key: system.perform_command(mc, Command::PointTowardsXY { x, y }, self)?,
-- 
2.43.0


From 30db031529a2e91f14f1aa7c7557896f6ba62710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:04 +0000
Subject: [PATCH 16/19] fix: don't hold an entity while checking its fields for
 stray borrows (they can refer back to it)

---
 src/std_system.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/std_system.rs b/src/std_system.rs
index 7d069a9..07838a7 100644
--- a/src/std_system.rs
+++ b/src/std_system.rs
@@ -331,10 +331,15 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
                 }
             }
         }
-        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: &mut Entity<'gc, C, StdSystem<C>>) {
-            check_symbols(mc, &entity.fields);
-            if let Some(original) = entity.original {
-                check_entity(mc, &mut *original.borrow_mut(mc));
+        fn check_entity<'gc, C: CustomTypes<StdSystem<C>>>(mc: &Mutation<'gc>, entity: Gc<'gc, RefLock<Entity<'gc, C, StdSystem<C>>>>) {
+            // don't hold on to the entity while checking its fields, since they can refer back to it
+            let (fields, original) = {
+                let entity = entity.borrow_mut(mc);
+                (entity.fields.clone(), entity.original)
+            };
+            check_symbols(mc, &fields);
+            if let Some(original) = original {
+                check_entity(mc, original);
             }
         }
 
@@ -342,10 +347,10 @@ impl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {
         check_symbols(mc, &global_context.globals);
         for entry in proc.get_call_stack() {
             check_symbols(mc, &entry.locals);
-            check_entity(mc, &mut entry.entity.borrow_mut(mc));
+            check_entity(mc, entry.entity);
         }
         for entity in global_context.entities.iter() {
-            check_entity(mc, &mut *entity.1.borrow_mut(mc));
+            check_entity(mc, *entity.1);
         }
     }
 }
-- 
2.43.0


From d0bb816b77cb090160477ac637c8b6840e62816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:04 +0000
Subject: [PATCH 17/19] fix: end 'numbers from' when the numbers are too large
 to count in steps of one

---
 src/process.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index d0a029e..09801f5 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1845,11 +1845,15 @@ mod ops {
                     if a <= b {
                         while a <= b {
                             res.push_back(Number::new(a)?.into());
+                            if a == b { break }
+                            if a + 1.0 == a { return Err(ErrorCause::InvalidSize { value: b - a }); } // too large to count in steps of one
                             a += 1.0;
                         }
                     } else {
                         while a >= b {
                             res.push_back(Number::new(a)?.into());
+                            if a == b { break }
+                            if a - 1.0 == a { return Err(ErrorCause::InvalidSize { value: b - a }); } // too large to count in steps of one
                             a -= 1.0;
                         }
                     }
-- 
2.43.0


From 06ae625ecbd7b167d6517cc09f30423f3ffb6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:41 +0000
Subject: [PATCH 18/19] fix: show images and audio by name instead of by
 address, which differs from run to run

---
 src/runtime.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index 3dd5d0b..198e416 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -971,8 +971,8 @@ fn format_value<C: CustomTypes<S>, S: System<C>>(value: &Value<'_, C, S>, f: &mu
             Value::Closure(x) => write!(f, "{:?}", &*x.borrow()),
             Value::Entity(x) => write!(f, "{:?}", &*x.borrow()),
             Value::Native(x) => write!(f, "{:?}", &**x),
-            Value::Image(x) => write!(f, "[Image {:?}]", Rc::as_ptr(x)),
-            Value::Audio(x) => write!(f, "[Audio {:?}]", Rc::as_ptr(x)),
+            Value::Image(x) => write!(f, "[Image {:?}]", x.name),
+            Value::Audio(x) => write!(f, "[Audio {:?}]", x.name),
             Value::List(x) => {
                 let identity = value.identity();
                 if !cache.insert(identity) { return write!(f, "[...]") }
-- 
2.43.0


From 5f66c6791dd3f85352fa30b7c1086309c3ff4f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:08 +0000
Subject: [PATCH 19/19] fix: a random choice over lists draws anew for every
 occurrence of a list

The elementwise form of binary operators remembers the result for every pair of
lists, so 'pick random' over a list containing the same list twice repeated the
same draws; unary operators already avoid this for random operations.
---
 src/process.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 09801f5..ed4d85c 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -1767,7 +1767,7 @@ mod ops {
         Ok(res.as_str().into())
     }
 
-    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
+    fn binary_op_impl<'gc, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &Value<'gc, C, S>, b: &Value<'gc, C, S>, matrix_mode: bool, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>, bool), Value<'gc, C, S>>, op_type: OpType, scalar_op: fn(&Mutation<'gc>, &S, &Value<'gc, C, S>, &Value<'gc, C, S>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>>) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let cache_key = (a.identity(), b.identity(), matrix_mode);
         Ok(match cache.get(&cache_key) {
             Some(x) => x.clone(),
@@ -1781,8 +1781,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for (a, b) in iter::zip(&*a, &*b) {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if op_type == OpType::Nondeterministic { cache.remove(&cache_key); }
                         real_res
                     }
                     (Some(a), None) => {
@@ -1792,8 +1793,9 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for a in &*a {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if op_type == OpType::Nondeterministic { cache.remove(&cache_key); }
                         real_res
                     }
                     (None, Some(b)) => {
@@ -1803,11 +1805,12 @@ mod ops {
                         let res = as_list(&real_res).unwrap();
                         let mut res = res.borrow_mut(mc);
                         for b in &*b {
-                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, scalar_op)?);
+                            res.push_back(binary_op_impl(mc, system, a, b, matrix_mode, cache, op_type, scalar_op)?);
                         }
+                        if op_type == OpType::Nondeterministic { cache.remove(&cache_key); }
                         real_res
                     }
-                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, scalar_op)? } else { scalar_op(mc, system, a, b)? }
+                    (None, None) => if matrix_mode { binary_op_impl(mc, system, a, b, false, cache, op_type, scalar_op)? } else { scalar_op(mc, system, a, b)? }
                 }
             }
         })
@@ -1815,30 +1818,30 @@ mod ops {
     pub(super) fn binary_op<'gc, 'a, C: CustomTypes<S>, S: System<C>>(mc: &Mutation<'gc>, system: &S, a: &'a Value<'gc, C, S>, b: &'a Value<'gc, C, S>, op: BinaryOp) -> Result<Value<'gc, C, S>, ErrorCause<C, S>> {
         let mut cache = Default::default();
         match op {
-            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
-            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
-            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
-            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
-            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
-            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
-            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
-
-            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Add       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.add(b.as_number()?)?.into())),
+            BinaryOp::Sub       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.sub(b.as_number()?)?.into())),
+            BinaryOp::Mul       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.mul(b.as_number()?)?.into())),
+            BinaryOp::Div       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.div(b.as_number()?)?.into())),
+            BinaryOp::Pow       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.powf(b.as_number()?)?.into())),
+            BinaryOp::Log       => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(b.as_number()?.log(a.as_number()?)?.into())),
+            BinaryOp::Atan2     => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| Ok(a.as_number()?.atan2(b.as_number()?)?.to_degrees()?.into())),
+
+            BinaryOp::StrGet => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let string = b.as_text()?;
                 let index = prep_index(a, string.graphemes(true).count())?;
                 Ok(Text::from(string.graphemes(true).nth(index).unwrap()).into())
             }),
 
-            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, |_, _, a, b| {
+            BinaryOp::Mod => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |_, _, a, b| {
                 let (a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 Ok(Number::new(util::modulus(a, b))?.into())
             }),
-            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::SplitBy => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (text, pattern) = (a.as_text()?, b.as_text()?);
                 Ok(Gc::new(mc, RefLock::new(text.split(pattern.as_str()).map(|x| Text::from(x).into()).collect::<VecDeque<_>>())).into())
             }),
 
-            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, |mc, _, a, b| {
+            BinaryOp::Range => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Deterministic, |mc, _, a, b| {
                 let (mut a, b) = (a.as_number()?.get(), b.as_number()?.get());
                 let mut res = VecDeque::new();
                 if a.is_finite() && b.is_finite() {
@@ -1860,7 +1863,7 @@ mod ops {
                 }
                 Ok(Gc::new(mc, RefLock::new(res)).into())
             }),
-            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, |_, system, a, b| {
+            BinaryOp::Random => binary_op_impl(mc, system, a, b, true, &mut cache, OpType::Nondeterministic, |_, system, a, b| {
                 let (mut a, mut b) = (a.as_number()?.get(), b.as_number()?.get());
                 if a > b { (a, b) = (b, a); }
                 Number::new(b - a)?; // the range must not be wider than what we can sample from
-- 
2.43.0

