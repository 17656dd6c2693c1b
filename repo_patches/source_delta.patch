From 523beef1128696099956b4f8fa36a4f03153a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:33 +0000
Subject: [PATCH 01/22] fix: apply flushed Pauli rotations of exactly pi
 without disturbing later queued rotations

---
 sparsesim/src/lib.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..6611dd0 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,11 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Enqueue the operation directly, since at this point any queued
+            // operations that do not commute with it have been flushed, and going through `mcx` or `mcy` would
+            // commute it past rotations that are queued to be applied after this one.
+            let op = if sign_flip { OpCode::Y } else { OpCode::X };
+            self.enqueue_op(target, ctls.into(), op);
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From 859d2096a838cea1465876bf0092377b563c553c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/22] fix: allow apply when a released qubit left a low state
 location unoccupied

---
 sparsesim/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 6611dd0..23f29a7 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1239,14 +1239,16 @@ impl QuantumSim {
                     .id_map
                     .get(*target)
                     .unwrap_or_else(|| panic!("Unable to find qubit with id {target}"));
+                // The location may be unoccupied if the qubit that used it was released.
                 let swap_id = self
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(id, _)| id);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 4d2f72aaae9aeffd7bdfdddd879276543523b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:25 +0000
Subject: [PATCH 03/22] fix: reject release of an unallocated qubit when a
 single other qubit is allocated

---
 sparsesim/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 23f29a7..649f840 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,8 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        self.check_allocated(id);
+
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
@@ -541,6 +543,14 @@ impl QuantumSim {
         }
     }
 
+    /// Verifies that the given identifier corresponds to an allocated qubit.
+    fn check_allocated(&self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+    }
+
     /// Verifies that the given target and list of controls does not contain any duplicate entries, and returns
     /// those values mapped to internal identifiers and converted to `u64`.
     fn resolve_and_check_qubits(&self, target: usize, ctls: &[usize]) -> (u64, Vec<u64>) {
-- 
2.43.0


From 1d023d7c32d5ff009e0577a8cbe2968794b550b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:28 +0000
Subject: [PATCH 04/22] fix: reject gates on unallocated or duplicate qubits
 instead of leaving them pending

---
 sparsesim/src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 649f840..1349246 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -579,6 +579,14 @@ impl QuantumSim {
     }
 
     fn enqueue_op(&mut self, target: usize, ctls: Vec<usize>, op: OpCode) {
+        // Verify the qubits before queuing, as otherwise an invalid operation could be silently dropped when
+        // the queue is discarded or applied to a qubit that is allocated later with the same identifier.
+        if ctls.is_empty() {
+            self.check_allocated(target);
+        } else {
+            self.resolve_and_check_qubits(target, &ctls);
+        }
+
         if self.op_queue.len() == QUEUE_LIMIT {
             self.flush_ops();
         }
@@ -942,6 +950,8 @@ impl QuantumSim {
 
     /// Single qubit H gate.
     pub fn h(&mut self, target: usize) {
+        self.check_allocated(target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // YH = -HY, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -1040,6 +1050,9 @@ impl QuantumSim {
     /// corresponds to an Rx or Ry depending on the requested sign flip, and notably can increase or
     /// decrease the size of the state vector.
     fn mcrotation(&mut self, ctls: &[usize], theta: f64, target: usize, sign_flip: bool) {
+        // Verify the qubits up front, since not all of the cases below resolve them.
+        self.resolve_and_check_qubits(target, ctls);
+
         // Calculate the matrix entries for the rotation by the given angle, respecting the sign flip.
         let m00 = Complex64::new(f64::cos(theta / 2.0), 0.0);
         let m01 = Complex64::new(0.0, f64::sin(theta / -2.0))
@@ -1146,6 +1159,8 @@ impl QuantumSim {
 
     /// Single qubit Rx gate.
     pub fn rx(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
+
         if self.h_flag.bit(target as u64) || self.ry_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
         }
@@ -1174,6 +1189,8 @@ impl QuantumSim {
 
     /// Single qubit Ry gate.
     pub fn ry(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
+
         if let Some(entry) = self.ry_queue.get_mut(target) {
             *entry += theta;
             if entry.is_nearly_zero() {
-- 
2.43.0


From 0fbcd22ed010e427ecc3a0dc73354086c8fa8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 05/22] fix: do not add zero amplitude states when applying an
 Exp rotation

---
 sparsesim/src/exp.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sparsesim/src/exp.rs b/sparsesim/src/exp.rs
index 4368bc0..12ee17a 100644
--- a/sparsesim/src/exp.rs
+++ b/sparsesim/src/exp.rs
@@ -164,16 +164,20 @@ impl QuantumSim {
                 if ctls.iter().all(|c| index.bit(*c)) {
                     let alt_index = index ^ &xy_mask;
                     if !mapped_state.contains_key(&alt_index) {
-                        self.state.push((index.clone(), value * id_coeff));
-                        self.state.push((
-                            alt_index,
-                            value
-                                * if (index & &yz_mask).count_ones() & 1 == 0 {
-                                    pauli_coeff
-                                } else {
-                                    -pauli_coeff
-                                },
-                        ));
+                        if !id_coeff.is_nearly_zero() {
+                            self.state.push((index.clone(), value * id_coeff));
+                        }
+                        if !pauli_coeff.is_nearly_zero() {
+                            self.state.push((
+                                alt_index,
+                                value
+                                    * if (index & &yz_mask).count_ones() & 1 == 0 {
+                                        pauli_coeff
+                                    } else {
+                                        -pauli_coeff
+                                    },
+                            ));
+                        }
                     } else if index < &alt_index {
                         let parity = (index & &yz_mask).count_ones() & 1 != 0;
                         let alt_value = mapped_state[&alt_index] as Complex64;
-- 
2.43.0


From 7b558c66ee6b63aa53eef2e9448d7edcea7a1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 06/22] fix: never report a measurement outcome whose
 probability is zero up to rounding

---
 sparsesim/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 1349246..ff7cb9a 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -321,9 +321,8 @@ impl QuantumSim {
             .id_map
             .get(id)
             .unwrap_or_else(|| panic!("Unable to find qubit with id {id}"));
-        let random_sample = self.rng.borrow_mut().random::<f64>();
         let prob = self.check_joint_probability(&[loc]);
-        let res = random_sample < prob;
+        let res = self.sample_outcome(prob);
         self.collapse(loc, res, prob);
         res
     }
@@ -382,13 +381,19 @@ impl QuantumSim {
             })
             .collect();
 
-        let random_sample = self.rng.borrow_mut().random::<f64>();
         let prob = self.check_joint_probability(&locs);
-        let res = random_sample < prob;
+        let res = self.sample_outcome(prob);
         self.joint_collapse(&locs, res, prob);
         res
     }
 
+    /// Utility to randomly pick a measurement outcome given the probability of `true`. An outcome that is impossible up to
+    /// rounding is never chosen, as collapsing onto it would leave an empty state.
+    fn sample_outcome(&self, prob: f64) -> bool {
+        let random_sample = self.rng.borrow_mut().random::<f64>();
+        !prob.is_nearly_zero() && ((1.0 - prob).is_nearly_zero() || random_sample < prob)
+    }
+
     /// Utility to get the sum of all probabilies where an odd number of the bits at the given locations
     /// are set. This corresponds to the probability of jointly measuring those qubits in the computational
     /// basis.
-- 
2.43.0


From a55067f7c3355a46a15201e30f29a71c2ff5d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 07/22] fix: release the reference to the array in
 qubit_release_array rather than an alias

---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From 3f45d50478cc79a5d0d2e1db5b78bf62ada33bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 08/22] fix: fail when an alias count becomes negative instead
 of corrupting memory

---
 stdlib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stdlib/src/lib.rs b/stdlib/src/lib.rs
index ab81ede..a5559f2 100644
--- a/stdlib/src/lib.rs
+++ b/stdlib/src/lib.rs
@@ -44,6 +44,12 @@ unsafe fn update_counts<T>(raw_rc: *const T, update: i32, is_alias: bool) {
                 remaining -= 1;
             } else {
                 if is_alias {
+                    // The alias count is not allowed to become negative.
+                    assert!(
+                        Rc::weak_count(&rc) > 0,
+                        "Alias count cannot become negative."
+                    );
+
                     // Create and drop downgraded instances to decrement the weak count on contained item.
                     let w = Weak::into_raw(Rc::downgrade(&rc));
 
-- 
2.43.0


From cab4c67843841e891599ab91b77a13238ff9817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 09/22] fix: compute the IEEE remainder exactly and round
 quotient ties to even

---
 stdlib/src/math.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..f105886 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,27 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    // The result is exact: reduce to less than twice the divisor, then subtract it until the remainder of smallest
+    // magnitude is reached, with ties resolved towards an even quotient.
+    let y = y.abs();
+    let mut rem = (x % (y + y)).abs();
+    if y < 2.0 * c_double::MIN_POSITIVE {
+        if rem + rem > y {
+            rem -= y;
+            if rem + rem >= y {
+                rem -= y;
+            }
+        }
+    } else {
+        let half = y / 2.0;
+        if rem > half {
+            rem -= y;
+            if rem >= half {
+                rem -= y;
+            }
+        }
+    }
+    if x.is_sign_negative() { -rem } else { rem }
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 3d6f6b9654f75489d12117b64bff8ccf8e20760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 10/22] fix: consume the recorded output that is read from the
 output buffer

---
 stdlib/src/output_recording.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/output_recording.rs b/stdlib/src/output_recording.rs
index 8a00ef9..04fc508 100644
--- a/stdlib/src/output_recording.rs
+++ b/stdlib/src/output_recording.rs
@@ -41,7 +41,9 @@ impl Write for OutputRecorder {
 
 impl Read for OutputRecorder {
     fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        self.buffer.as_slice().read(buf)
+        let count = self.buffer.as_slice().read(buf)?;
+        self.buffer.drain(..count);
+        Ok(count)
     }
 }
 
-- 
2.43.0


From 98219afe9fc796e1fd93470a2a3fbb8caabebc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 11/22] fix: array slices no longer overflow for large range
 bounds or steps

---
 stdlib/src/range_support.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/stdlib/src/range_support.rs b/stdlib/src/range_support.rs
index 77ffea7..d1c18a8 100644
--- a/stdlib/src/range_support.rs
+++ b/stdlib/src/range_support.rs
@@ -30,29 +30,31 @@ pub unsafe extern "C" fn quantum__rt__array_slice_1d(
     range: Range,
 ) -> *const QirArray {
     let array = unsafe { &*arr };
-    let item_size: i64 = array
-        .elem_size
-        .try_into()
-        .expect("Array element size too large for `usize` type on this platform.");
     let mut slice = QirArray {
         elem_size: array.elem_size,
         data: Vec::new(),
     };
+    // Iterate over item indices rather than byte offsets, which could overflow.
     let iter: Box<dyn Iterator<Item = i64>> = if range.step > 0 {
-        Box::new(range.start * item_size..=range.end * item_size)
+        Box::new(range.start..=range.end)
     } else {
-        Box::new((range.end * item_size..=range.start * item_size).rev())
+        Box::new((range.end..=range.start).rev())
     };
 
-    let step: i64 = range.step.abs();
-    for i in iter.step_by((step * item_size).try_into().expect(
-        "Range step multiplied by item size is too large for `usize` type on this platform",
-    )) {
-        let index = i
+    let step: usize = range
+        .step
+        .unsigned_abs()
+        .try_into()
+        .expect("Range step is too large for `usize` type on this platform");
+    for i in iter.step_by(step) {
+        let index: usize = i
             .try_into()
             .expect("Item index too large for `usize` type on this platform.");
+        let offset = index
+            .checked_mul(array.elem_size)
+            .expect("Item offset too large for `usize` type on this platform.");
         let mut copy = vec![0; array.elem_size];
-        copy.copy_from_slice(&array.data[index..index + array.elem_size]);
+        copy.copy_from_slice(&array.data[offset..][..array.elem_size]);
         slice.data.append(&mut copy);
     }
 
-- 
2.43.0


From d7684584d877513148329cefdb1a50909db607e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:53 +0000
Subject: [PATCH 12/22] fix: creating an array whose size overflows no longer
 yields a too small array

---
 stdlib/src/arrays.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index edc4953..4f342ef 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -21,13 +21,16 @@ pub struct QirArray {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__rt__array_create_1d(elem_size: u32, count: u64) -> *const QirArray {
-    let elem_size = elem_size
+    let elem_size: usize = elem_size
         .try_into()
         .expect("The `elem_size` argument should fit in the `usize` type for this platform.");
     let count: usize = count
         .try_into()
         .expect("The `count` argument should fit in the `usize` type for this platform.");
-    let data = vec![0_u8; elem_size * count];
+    let size = elem_size
+        .checked_mul(count)
+        .expect("The size of the array should fit in the `usize` type for this platform.");
+    let data = vec![0_u8; size];
     Rc::into_raw(Rc::new(QirArray { elem_size, data }))
 }
 
-- 
2.43.0


From 16f1ba79a5589abc805cd90b2308219078125fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 13/22] fix: bind assertmeasurementprobability__ctl with the
 two parameters it takes

---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From 03c808ae84761dc64dce2ef9a874f3304002eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 14/22] fix: bind the documented message_record_output function

---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..0b03de0 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -579,6 +579,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__int_to_string, 1);
     bind!(__quantum__rt__memory_allocate, 1);
     bind!(__quantum__rt__message, 1);
+    bind!(__quantum__rt__message_record_output, 1);
     bind!(__quantum__rt__pauli_to_string, 1);
     bind!(__quantum__rt__qubit_allocate, 0);
     bind!(__quantum__rt__qubit_allocate_array, 1);
-- 
2.43.0


From 13c78d0288dd39682a0843068a118c351978f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 15/22] fix: count labeled array and tuple records when
 refusing mixed output recording

---
 runner/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 0b03de0..a2f8889 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -483,6 +483,12 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__array_create_1d, 2);
 
     // New calls
+    for name in [
+        "__quantum__rt__array_record_output",
+        "__quantum__rt__tuple_record_output",
+    ] {
+        uses_legacy.push(declarations.contains_key(name).then_some(false));
+    }
     bind!(__quantum__rt__array_record_output, 2);
     bind!(__quantum__rt__tuple_record_output, 2);
 
-- 
2.43.0


From 8707d97e667e827355224128d66a91e4dace2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:23 +0000
Subject: [PATCH 16/22] fix: refuse output recording functions with the wrong
 number of parameters

---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a2f8889..0736752 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if func.get_params().len() != 0 {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -508,13 +521,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From 647c7a0bae80b78545b784e196ec35ea9d4d0896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:12 +0000
Subject: [PATCH 17/22] fix: run entry points that have LLVM attributes other
 than strings

---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 0736752..c3929a1 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -174,6 +174,7 @@ fn run_module(
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
         .iter()
+        .filter(|attr| attr.is_string())
         .map(|attr| {
             (
                 attr.get_string_kind_id()
-- 
2.43.0


From 30c3a379d60a07f479ee90fd34a7e48d15457ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 18/22] fix: a refused swap with an unallocated qubit no longer
 moves pending gates to its identifier

---
 sparsesim/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index ff7cb9a..bf88f97 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -469,6 +469,9 @@ impl QuantumSim {
     /// # Panics
     /// This function will panic if either of the given identifiers do not correspond to an allocated qubit.
     pub fn swap_qubit_ids(&mut self, qubit1: usize, qubit2: usize) {
+        self.check_allocated(qubit1);
+        self.check_allocated(qubit2);
+
         self.flush_ops();
 
         // Must also swap any queued operations.
-- 
2.43.0


From 2047736eb334b25af35b13ef6a8130d7d3d44040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:01 +0000
Subject: [PATCH 19/22] fix: collapse normalises by what remains of the state,
 so that rounding errors do not grow with each measurement

---
 sparsesim/src/lib.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index bf88f97..037e34a 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -323,7 +323,7 @@ impl QuantumSim {
             .unwrap_or_else(|| panic!("Unable to find qubit with id {id}"));
         let prob = self.check_joint_probability(&[loc]);
         let res = self.sample_outcome(prob);
-        self.collapse(loc, res, prob);
+        self.collapse(loc, res);
         res
     }
 
@@ -353,7 +353,7 @@ impl QuantumSim {
         // either val is true and the probability is not zero or that val is false and
         // the 1.0 minus the probability is not zero.
         if (val && !prob.is_nearly_zero()) || (!val && !(1.0 - prob).is_nearly_zero()) {
-            self.collapse(loc, val, prob);
+            self.collapse(loc, val);
         }
         if val { prob } else { 1.0 - prob }
     }
@@ -383,7 +383,7 @@ impl QuantumSim {
 
         let prob = self.check_joint_probability(&locs);
         let res = self.sample_outcome(prob);
-        self.joint_collapse(&locs, res, prob);
+        self.joint_collapse(&locs, res);
         res
     }
 
@@ -432,26 +432,27 @@ impl QuantumSim {
     /// Utility to collapse the probability at the given location based on the boolean value. This means
     /// that if the given value is 'true' then all keys in the sparse state where the given location
     /// has a zero bit will be reduced to zero and removed. Then the sparse state is normalized.
-    fn collapse(&mut self, loc: usize, val: bool, scaling_denominator: f64) {
-        self.joint_collapse(&[loc], val, scaling_denominator);
+    fn collapse(&mut self, loc: usize, val: bool) {
+        self.joint_collapse(&[loc], val);
     }
 
     /// Utility to collapse the joint probability of a particular set of locations in the sparse state.
     /// The entries that do not correspond to the given boolean value are removed, and then the whole
     /// state is normalized.
-    fn joint_collapse(&mut self, locs: &[usize], val: bool, scaling_denominator: f64) {
+    fn joint_collapse(&mut self, locs: &[usize], val: bool) {
         let mask = locs.iter().fold(BigUint::zero(), |accum, loc| {
             accum | (BigUint::one() << loc)
         });
 
-        // Normalize the new state using the accumulated scaling.
-        let scaling = 1.0
-            / (if val {
-                scaling_denominator
-            } else {
-                1.0 - scaling_denominator
-            })
-            .sqrt();
+        // Normalize the new state by what remains of it. Scaling by the probability of the other outcome instead
+        // would amplify the rounding error of the old state with every collapse.
+        let remaining: f64 = self
+            .state
+            .iter()
+            .filter(|(k, _)| (k & &mask).count_ones() & 1 == u64::from(val))
+            .map(|(_, v)| v.norm_sqr())
+            .sum();
+        let scaling = 1.0 / remaining.sqrt();
         self.state = self
             .state
             .drain(..)
-- 
2.43.0


From 1ad1170512238405439576c1f45132d4e2496f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 20/22] fix: declare the external failure handler in the form
 edition 2024 requires, so that the library builds without fail-support

---
 stdlib/src/arrays.rs | 2 +-
 stdlib/src/math.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index 4f342ef..4d005a2 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -6,7 +6,7 @@ use std::{mem::ManuallyDrop, rc::Rc};
 
 #[cfg(not(feature = "fail-support"))]
 #[allow(improper_ctypes)]
-extern "C" {
+unsafe extern "C" {
     fn __quantum__rt__fail(str: *const std::ffi::CString);
 }
 
diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index f105886..413d314 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -10,7 +10,7 @@ use crate::strings::convert;
 
 #[cfg(not(feature = "fail-support"))]
 #[allow(improper_ctypes)]
-extern "C" {
+unsafe extern "C" {
     fn __quantum__rt__fail(str: *const std::ffi::CString);
 }
 
-- 
2.43.0


From 39b678ce4dd56934cf1d71221f49d71a7023998e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 21/22] fix: the header describes the byte order of
 bigint_create_array as it is implemented and tested

---
 stdlib/include/qir_stdlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/include/qir_stdlib.h b/stdlib/include/qir_stdlib.h
index 213ffa9..d8dd67b 100644
--- a/stdlib/include/qir_stdlib.h
+++ b/stdlib/include/qir_stdlib.h
@@ -159,7 +159,7 @@ extern "C"
     QIR_SHARED_API QirBigInt* __quantum__rt__bigint_create_i64(int64_t); // NOLINT
 
     // Creates a big integer with the initial value specified by the i8 array. The 0-th element of the array is the
-    // highest-order byte, followed by the first element, etc.
+    // lowest-order byte, followed by the first element, etc.
     QIR_SHARED_API QirBigInt* __quantum__rt__bigint_create_array(int32_t, char*); // NOLINT
 
     // Adds the given integer value to the reference count for the big integer. Deallocates the big integer if the
-- 
2.43.0


From db44fea7c9f52ee25dc082ea35927c1670fea30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:20 +0000
Subject: [PATCH 22/22] fix: drawrandomdouble aborted for finite ranges whose
 width overflows a double

---
 stdlib/src/math.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 413d314..7194ff7 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -143,5 +143,10 @@ pub extern "C" fn __quantum__qis__drawrandomdouble__body(min: c_double, max: c_d
             __quantum__rt__fail(convert(&"Invalid Argument: minimum > maximum".to_string()));
         }
     }
+    if max - min > c_double::MAX / 2.0 {
+        // The width of the range could overflow, so draw from the range scaled down.
+        let val = rand::rng().random_range(min / 4.0..=max / 4.0) * 4.0;
+        return val.clamp(min, max);
+    }
     rand::rng().random_range(min..=max)
 }
-- 
2.43.0

