From 70a4a938879113c88c75922228b71e18e291e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 1/4] fix: do not abort the process when a Waiter is dropped
 before its job ends

The job ran on a rayon thread and unwrapped the result of sending to a channel
whose receiver was gone; the panic in the pool aborts the process. create_proof
drops Waiters whenever it returns an error after starting a multiexp.
---
 src/multicore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..8b4334f 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,15 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The result is discarded if the Waiter has been dropped.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The result is discarded if the Waiter has been dropped.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From 9389672b8032b1f1ccdcc6efba5876285a7e3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 2/4] fix: never hand out a zero chunk size without the
 multicore feature

Worker::scope(0, ..) passed a chunk size of 0 to its closure, and callers such
as generate_parameters (for a circuit with no auxiliary variable) panicked in
chunks_mut(0).
---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index 8b4334f..aee218e 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -170,7 +170,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // The chunk size is never zero, as in the multicore implementation.
+            f(&DummyScope, std::cmp::max(elements, 1))
         }
     }
 
-- 
2.43.0


From 9d715a9ec5aa3aeb7bd5203180801ee3e2f17261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 3/4] fix: count query density after combining the terms of
 each variable

A linear combination may hold several terms for one variable. When they cancel
out, generate_parameters finds a zero polynomial and leaves the variable out of
the A/B query, but the prover still counted it: create_proof then failed with
UnexpectedEof or made an invalid proof for a satisfied circuit.
---
 groth16/src/prover.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..9c9edc9 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -25,11 +25,31 @@ fn eval<S: PrimeField>(
 ) -> S {
     let mut acc = S::ZERO;
 
-    for &(index, coeff) in lc.as_ref() {
+    // Add up the terms of each variable first. Terms that cancel out must not count
+    // towards the density: the generator leaves the variable's polynomial out of its
+    // query if it is zero.
+    let mut terms: Vec<(Index, S)> = lc
+        .as_ref()
+        .iter()
+        .map(|&(var, coeff)| (var.get_unchecked(), coeff))
+        .collect();
+    terms.sort_by_key(|(index, _)| match *index {
+        Index::Input(i) => (0, i),
+        Index::Aux(i) => (1, i),
+    });
+    terms.dedup_by(|(index, coeff), (prev_index, prev_coeff)| {
+        let same = index == prev_index;
+        if same {
+            *prev_coeff += *coeff;
+        }
+        same
+    });
+
+    for (index, coeff) in terms {
         let mut tmp;
 
         if !coeff.is_zero_vartime() {
-            match index.get_unchecked() {
+            match index {
                 Index::Input(i) => {
                     tmp = input_assignment[i];
                     if let Some(ref mut v) = input_density {
-- 
2.43.0


From 83d8e66c3ee261aec7fcbb02c2485f79ab113950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 4/4] fix: decide whether a sum of constant words is constant
 without the witness

---
 src/gadgets/uint32.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gadgets/uint32.rs b/src/gadgets/uint32.rs
index af4d634..228686a 100644
--- a/src/gadgets/uint32.rs
+++ b/src/gadgets/uint32.rs
@@ -332,8 +332,10 @@ impl UInt32 {
 
         // Iterate over the operands
         for op in operands {
-            // Accumulate the value
-            match op.value {
+            // Accumulate the value. It may not have been tracked even though all
+            // bits are constants (e.g. when the unknown bits were shifted out), and
+            // whether this is a constant must not depend on the witness.
+            match op.value.or_else(|| Self::from_bits(&op.bits).value) {
                 Some(val) => {
                     if let Some(v) = result_value.as_mut() {
                         *v += u64::from(val);
-- 
2.43.0

