From f0053940a612894b2862bd3a9ba834c49368fe55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 01/13] fix: keep a pending Ry intact when a queued Rx by an
 odd multiple of pi is applied

Applying a queued Rx(pi) went through the public X gate, which treats the
still pending Ry on the same qubit as an earlier operation and inverts it.
---
 sparsesim/src/lib.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..b1828ed 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,15 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Any pending operations that do not commute with it have already
+            // been applied, so queue the Pauli directly. Going through `mcx` or `mcy` would treat it as
+            // a new operation following the ones still queued and, for example, invert a pending Ry that
+            // comes after the Rx being applied here.
+            self.enqueue_op(
+                target,
+                ctls.into(),
+                if sign_flip { OpCode::Y } else { OpCode::X },
+            );
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From 92bfc6201a1fa17782f2741a47fa463b67307902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 02/13] fix: panic when releasing an unallocated qubit while
 one qubit remains

release documents that it panics for an id that is not allocated, but with
exactly one qubit left it instead discarded the state of that other qubit.
---
 sparsesim/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index b1828ed..537cab9 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,10 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
-- 
2.43.0


From cb80a6b911643f27b9c0a5b0fc4931806647a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 03/13] fix: support unitary application after a qubit has been
 released

apply assumed that every low state location is occupied and panicked when the
qubit that used one of them had been released.
---
 sparsesim/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 537cab9..416f144 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1247,14 +1247,16 @@ impl QuantumSim {
                     .id_map
                     .get(*target)
                     .unwrap_or_else(|| panic!("Unable to find qubit with id {target}"));
+                // The location may be unused if the qubit that previously occupied it was released.
                 let swap_id = self
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(id, _)| id);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From f54877af04314961ce16203ba99b3690aa8f0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 04/13] fix: round ties to even in the IEEE remainder

---
 stdlib/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..e6d7912 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,7 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    x - y * (x / y).round_ties_even()
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 00f76876a661c5894ca66e598689fb19a1f06967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 05/13] fix: drop the reference, not an alias, when releasing a
 qubit array

qubit_release_array decremented the alias count of the array it releases, which
for an array without aliases corrupts its bookkeeping and leaks its contents.
---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From a4c0b123ac915e0cb3fc32e5728461269fc49019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 06/13] fix: fail when an alias count would become negative

The header documents this, but the decrement went on to release the memory of
an object that is still referenced.
---
 stdlib/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/src/lib.rs b/stdlib/src/lib.rs
index ab81ede..6d49cce 100644
--- a/stdlib/src/lib.rs
+++ b/stdlib/src/lib.rs
@@ -44,6 +44,10 @@ unsafe fn update_counts<T>(raw_rc: *const T, update: i32, is_alias: bool) {
                 remaining -= 1;
             } else {
                 if is_alias {
+                    assert!(
+                        Rc::weak_count(&rc) > 0,
+                        "Alias count cannot become negative."
+                    );
                     // Create and drop downgraded instances to decrement the weak count on contained item.
                     let w = Weak::into_raw(Rc::downgrade(&rc));
 
-- 
2.43.0


From b337fff35aa8332caa8ee95f62824f2ccc61d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 07/13] fix: reject gates on unallocated qubits when they are
 requested

H, Rx, Ry and queued gates on an id that is not allocated were kept pending, and
took effect on a qubit that was allocated later and got that id.
---
 sparsesim/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 416f144..fde2193 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,10 +178,7 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
-        assert!(
-            self.id_map.contains_key(id),
-            "Unable to find qubit with id {id}"
-        );
+        self.check_allocated(id);
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
@@ -572,7 +569,18 @@ impl QuantumSim {
         (target, ctls)
     }
 
+    /// Verifies that the given id corresponds to an allocated qubit, so that operations on unknown qubits
+    /// are not left pending for a qubit that might later get allocated with that id.
+    fn check_allocated(&self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+    }
+
     fn enqueue_op(&mut self, target: usize, ctls: Vec<usize>, op: OpCode) {
+        self.check_allocated(target);
+        ctls.iter().for_each(|c| self.check_allocated(*c));
         if self.op_queue.len() == QUEUE_LIMIT {
             self.flush_ops();
         }
@@ -936,6 +944,8 @@ impl QuantumSim {
 
     /// Single qubit H gate.
     pub fn h(&mut self, target: usize) {
+        self.check_allocated(target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // YH = -HY, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -1144,6 +1154,8 @@ impl QuantumSim {
 
     /// Single qubit Rx gate.
     pub fn rx(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
+
         if self.h_flag.bit(target as u64) || self.ry_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
         }
@@ -1172,6 +1184,8 @@ impl QuantumSim {
 
     /// Single qubit Ry gate.
     pub fn ry(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             *entry += theta;
             if entry.is_nearly_zero() {
-- 
2.43.0


From 589a8bfca65bb6eb7986be3366403d1da233c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 08/13] fix: compute the IEEE remainder exactly

Rounding the quotient first gave NaN for an infinite divisor and wrong
values whenever x / y or n * y was not representable.
---
 stdlib/src/math.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index e6d7912..74682b9 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,17 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round_ties_even()
+    // The quotient cannot be rounded first: it may not fit into the mantissa or may overflow. Both `%`
+    // and the subtractions below are exact; twice the divisor keeps the parity needed to break ties.
+    let y = y.abs();
+    let mut rem = (x % (2.0 * y)).abs();
+    if rem + rem > y {
+        rem -= y;
+        if rem + rem >= y {
+            rem -= y;
+        }
+    }
+    if x.is_sign_negative() { -rem } else { rem }
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 29dd2cd05d4f760db9cacd3580eaa2d309760b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 09/13] fix: slice by elements so that large range bounds do
 not overflow

---
 stdlib/src/range_support.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/stdlib/src/range_support.rs b/stdlib/src/range_support.rs
index 77ffea7..6795665 100644
--- a/stdlib/src/range_support.rs
+++ b/stdlib/src/range_support.rs
@@ -30,27 +30,26 @@ pub unsafe extern "C" fn quantum__rt__array_slice_1d(
     range: Range,
 ) -> *const QirArray {
     let array = unsafe { &*arr };
-    let item_size: i64 = array
-        .elem_size
-        .try_into()
-        .expect("Array element size too large for `usize` type on this platform.");
     let mut slice = QirArray {
         elem_size: array.elem_size,
         data: Vec::new(),
     };
     let iter: Box<dyn Iterator<Item = i64>> = if range.step > 0 {
-        Box::new(range.start * item_size..=range.end * item_size)
+        Box::new(range.start..=range.end)
     } else {
-        Box::new((range.end * item_size..=range.start * item_size).rev())
+        Box::new((range.end..=range.start).rev())
     };
 
-    let step: i64 = range.step.abs();
-    for i in iter.step_by((step * item_size).try_into().expect(
-        "Range step multiplied by item size is too large for `usize` type on this platform",
-    )) {
-        let index = i
+    for i in iter.step_by(
+        range
+            .step
+            .unsigned_abs()
             .try_into()
-            .expect("Item index too large for `usize` type on this platform.");
+            .expect("Range step is too large for `usize` type on this platform"),
+    ) {
+        let index = usize::try_from(i)
+            .expect("Item index too large for `usize` type on this platform.")
+            * array.elem_size;
         let mut copy = vec![0; array.elem_size];
         copy.copy_from_slice(&array.data[index..index + array.elem_size]);
         slice.data.append(&mut copy);
-- 
2.43.0


From c585f6b6a4cf21feb96a26dac429c654b8472394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 10/13] fix: draw random doubles from ranges wider than the
 largest double

---
 stdlib/src/math.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 74682b9..3479144 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -133,5 +133,9 @@ pub extern "C" fn __quantum__qis__drawrandomdouble__body(min: c_double, max: c_d
             __quantum__rt__fail(convert(&"Invalid Argument: minimum > maximum".to_string()));
         }
     }
+    if min.is_finite() && max.is_finite() && (max - min).is_infinite() {
+        // The width of the range is not representable, but half of it is; halving such bounds is exact.
+        return 2.0 * rand::rng().random_range(min / 2.0..=max / 2.0);
+    }
     rand::rng().random_range(min..=max)
 }
-- 
2.43.0


From d8b086c1c97ea63b9b5ad4c421a7cc8b74154033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 11/13] fix: link the controlled probability assertion by its
 two parameters

---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From 69d486e4b9295d9b760a0d87bbbe3dbe91b72da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 12/13] fix: reject output recording functions declared with a
 wrong number of parameters

---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..67a624a 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if !func.get_params().is_empty() {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -502,13 +515,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From cb8cdc3471bbf5964e7e2f88ec8571097183c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 13/13] fix: count array and tuple records as current output
 recording

---
 runner/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 67a624a..b104485 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -496,6 +496,12 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__array_create_1d, 2);
 
     // New calls
+    for name in [
+        "__quantum__rt__array_record_output",
+        "__quantum__rt__tuple_record_output",
+    ] {
+        uses_legacy.push(declarations.contains_key(name).then_some(false));
+    }
     bind!(__quantum__rt__array_record_output, 2);
     bind!(__quantum__rt__tuple_record_output, 2);
 
-- 
2.43.0

