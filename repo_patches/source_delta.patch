From 50ba540e67ab546694995581f6e7d726f413d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 01/12] fix: new_with_checked_provable_security accepted
 exactly the insecure options

The comparison was inverted and the blowup bits were counted with leading_zeros,
so options far below the target were returned and secure ones rejected.
---
 src/starks/proof/options.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index b45c128..cef45d9 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -111,10 +111,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.leading_zeros() as usize;
+        // A blowup factor of zero adds no security
+        let num_bits_blowup_factor = (blowup_factor.trailing_zeros() % u8::BITS) as usize;
 
         if (security_target as usize)
-            < grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
+            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries / 2
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 38fc4176710a20b4f2fe2c922adba29b87e46562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 02/12] fix: new_with_checked_security accepted options
 offering no security

With no grinding and a blowup factor of one (or no queries) the subtraction
underflowed: a panic in debug builds, acceptance in release builds. A blowup
factor of zero was counted as eight bits per query.
---
 src/starks/proof/options.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/starks/proof/options.rs b/src/starks/proof/options.rs
index cef45d9..95e76a2 100644
--- a/src/starks/proof/options.rs
+++ b/src/starks/proof/options.rs
@@ -83,10 +83,11 @@ impl ProofOptions {
     ) -> Result<Self, InsecureOptionError> {
         Self::check_field_security::<F>(security_target)?;
 
-        let num_bits_blowup_factor = blowup_factor.trailing_zeros() as usize;
+        // A blowup factor of zero adds no security
+        let num_bits_blowup_factor = (blowup_factor.trailing_zeros() % u8::BITS) as usize;
 
-        if security_target as usize
-            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries - 1
+        if security_target as usize + 1
+            >= grinding_factor as usize + num_bits_blowup_factor * fri_number_of_queries
         {
             return Err(InsecureOptionError::SecurityBits);
         }
-- 
2.43.0


From 5efcae8054b2d81b293ed9b5917eb8fc6da6ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 03/12] fix: the verifier discarded the result of the trace
 openings

The fold checking the Merkle openings of the trace columns was computed and
dropped, so the trace values of a query were never bound to the commitments.
---
 src/starks/verifier.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index d99d2c9..bd6c18f 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -408,7 +408,7 @@ where
                 ];
 
                 // Verify openings Open(tⱼ(D_LDE), 𝜐₀)
-                proof
+                result = proof
                     .lde_trace_merkle_roots
                     .iter()
                     .zip(&deep_poly_opening.lde_trace_merkle_proofs)
-- 
2.43.0


From 909cb6839d6ac6d7a8f2879f9a41242de1e11f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 04/12] fix: the verifier ignored the frame offsets in the DEEP
 quotients

It divided by x - z*g^row while the prover divides by x - z*g^offset, so honest
proofs were rejected for any AIR whose frame rows are not 0, 1, 2, ...
---
 src/starks/verifier.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index bd6c18f..f229c20 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -423,10 +423,13 @@ where
 
                 // DEEP consistency check
                 // Verify that Deep(x) is constructed correctly
-                let mut divisors = (0..proof.trace_ood_frame_evaluations.num_rows())
-                    .map(|row_idx| {
+                let mut divisors = air
+                    .context()
+                    .transition_offsets
+                    .iter()
+                    .map(|offset| {
                         &domain.lde_roots_of_unity_coset[*iota_n]
-                            - &challenges.z * primitive_root.pow(row_idx as u64)
+                            - &challenges.z * primitive_root.pow(*offset)
                     })
                     .collect::<Vec<FieldElement<F>>>();
                 FieldElement::inplace_batch_inverse(&mut divisors);
-- 
2.43.0


From 8db3a8569640802575e7b2e9110e8a5c4adb7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 05/12] fix: proofs with missing parts skipped verification
 checks

The verifier zips the lists of a proof, so a proof with fewer openings, layers,
authentication paths or commitments than the protocol prescribes was checked
only partially (or not at all), and one extra layer evaluation replaced the
check against the last FRI value. Shorter lists also caused panics. The shape of
the proof is now checked before it is used.
---
 src/starks/verifier.rs | 46 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/starks/verifier.rs b/src/starks/verifier.rs
index f229c20..776b861 100644
--- a/src/starks/verifier.rs
+++ b/src/starks/verifier.rs
@@ -559,6 +559,42 @@ fn reconstruct_deep_composition_poly_evaluation<F: IsFFTField, A: AIR<Field = F>
     trace_term + h_1_term * &challenges.gamma_even + h_2_term * &challenges.gamma_odd
 }
 
+/// Checks that every list in the proof has the length determined by the statement.
+/// The verification steps walk through several of these lists at once, so that
+/// missing or extra elements would make them skip checks or index out of bounds.
+fn proof_has_expected_shape<F, A>(air: &A, proof: &StarkProof<F>, domain: &Domain<F>) -> bool
+where
+    F: IsFFTField,
+    A: AIR<Field = F>,
+{
+    let trace_columns = air.context().trace_columns;
+    let number_of_trace_commitments = if air.number_auxiliary_rap_columns() > 0 {
+        2
+    } else {
+        1
+    };
+    let number_of_queries = air.options().fri_number_of_queries;
+    let number_of_fri_layers = std::cmp::max(domain.root_order as usize, 1);
+    let frame = &proof.trace_ood_frame_evaluations;
+
+    proof.lde_trace_merkle_roots.len() == number_of_trace_commitments
+        && frame.num_columns() == trace_columns
+        && frame.num_rows() == air.context().transition_offsets.len()
+        && proof.fri_layers_merkle_roots.len() == number_of_fri_layers
+        && proof.query_list.len() == number_of_queries
+        && proof.query_list.iter().all(|query| {
+            query.layers_auth_paths.len() == number_of_fri_layers
+                && query.layers_auth_paths_sym.len() == number_of_fri_layers
+                && query.layers_evaluations.len() == number_of_fri_layers
+                && query.layers_evaluations_sym.len() == number_of_fri_layers
+        })
+        && proof.deep_poly_openings.len() == number_of_queries
+        && proof.deep_poly_openings.iter().all(|opening| {
+            opening.lde_trace_merkle_proofs.len() == number_of_trace_commitments
+                && opening.lde_trace_evaluations.len() == trace_columns
+        })
+}
+
 pub fn verify<F, A>(
     proof: &StarkProof<F>,
     pub_input: &A::PublicInputs,
@@ -574,6 +610,11 @@ where
         return false;
     }
 
+    // The evaluation domains are only defined for these trace lengths
+    if !proof.trace_length.is_power_of_two() {
+        return false;
+    }
+
     #[cfg(feature = "instruments")]
     println!("- Started step 1: Recover challenges");
     #[cfg(feature = "instruments")]
@@ -583,6 +624,11 @@ where
     let air = A::new(proof.trace_length, pub_input, proof_options);
     let domain = Domain::new(&air);
 
+    if !proof_has_expected_shape(&air, proof, &domain) {
+        error!("Proof has an unexpected shape");
+        return false;
+    }
+
     let challenges =
         step_1_replay_rounds_and_recover_challenges(&air, proof, &domain, &mut transcript);
 
-- 
2.43.0


From 01d53b8e2db9ba67aa69f8566bca591adf8df878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 06/12] fix: PublicInputs::deserialize panicked on input cut
 inside a range-check bound

---
 src/cairo/air.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 75c9bad..eb4e1b5 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -331,7 +331,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_min = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
@@ -352,7 +354,9 @@ impl Deserializable for PublicInputs {
             1 => {
                 bytes = &bytes[1..];
                 let range_check_max = u16::from_be_bytes(
-                    bytes[..2]
+                    bytes
+                        .get(..2)
+                        .ok_or(DeserializationError::InvalidAmountOfBytes)?
                         .try_into()
                         .map_err(|_| DeserializationError::InvalidAmountOfBytes)?,
                 );
-- 
2.43.0


From ed200084708c13f24676201da5f99784c92066cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 07/12] fix: serialising a FRI decommitment without layers
 panicked

---
 src/starks/fri/fri_decommit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/starks/fri/fri_decommit.rs b/src/starks/fri/fri_decommit.rs
index 74da883..9d642d6 100644
--- a/src/starks/fri/fri_decommit.rs
+++ b/src/starks/fri/fri_decommit.rs
@@ -27,7 +27,7 @@ where
         for proof in &self.layers_auth_paths_sym {
             bytes.extend(serialize_proof(proof));
         }
-        let felt_len = self.layers_evaluations[0].to_bytes_be().len();
+        let felt_len = FieldElement::<F>::zero().to_bytes_be().len();
         bytes.extend(felt_len.to_be_bytes());
         bytes.extend(self.layers_evaluations_sym.len().to_be_bytes());
         for evaluation in &self.layers_evaluations_sym {
-- 
2.43.0


From 9b47afcf16e86392b81576a7179ca5de9137a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 08/12] fix: an output segment alone made the AIR expect
 range-check builtin columns

---
 src/cairo/air.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index eb4e1b5..e2ddc47 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -624,7 +624,9 @@ impl AIR for CairoAIR {
         // layouts functionality. The `has_rc_builtin` boolean should not exist, we will know the
         // layout from the Cairo public inputs directly, and the number of constraints and columns
         // will be enforced through that.
-        let has_rc_builtin = !pub_inputs.memory_segments.is_empty();
+        let has_rc_builtin = pub_inputs
+            .memory_segments
+            .contains_key(&MemorySegment::RangeCheck);
         if has_rc_builtin {
             trace_columns += 8 + 1; // 8 columns for each rc of the range-check builtin values decomposition, 1 for the values
             transition_degrees.push(1); // Range check builtin constraint
-- 
2.43.0


From f5c06581fcaaf8370f5d7ec9da577dbe547b57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 09/12] fix: declare the degree of the instruction unpacking
 constraint

Multiplied by the selector it has degree 2, not 3.
---
 src/cairo/air.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index e2ddc47..0c366c1 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -599,7 +599,8 @@ impl AIR for CairoAIR {
         let mut transition_degrees = vec![
             2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, // Flags 0-14.
             1, // Flag 15
-            3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, // Other constraints.
+            2, // Instruction unpacking.
+            3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, // Other constraints.
             2, 2, 2, 2, // Increasing memory auxiliary constraints.
             2, 2, 2, 2, // Consistent memory auxiliary constraints.
             2, 2, 2, 2, // Permutation auxiliary constraints.
-- 
2.43.0


From cf3629f0af216baf6cd761da17dfabbcb450268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:20 +0000
Subject: [PATCH 10/12] fix: enforce the initial frame pointer of the Cairo
 public inputs

fp_init was part of the public inputs but no constraint used it.
---
 src/cairo/air.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index 0c366c1..f3a0583 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -787,6 +787,7 @@ impl AIR for CairoAIR {
     ) -> BoundaryConstraints<Self::Field> {
         let initial_pc = BoundaryConstraint::new(MEM_A_TRACE_OFFSET, 0, self.pub_inputs.pc_init);
         let initial_ap = BoundaryConstraint::new(MEM_P_TRACE_OFFSET, 0, self.pub_inputs.ap_init);
+        let initial_fp = BoundaryConstraint::new(FRAME_FP, 0, self.pub_inputs.fp_init);
 
         let final_pc = BoundaryConstraint::new(
             MEM_A_TRACE_OFFSET,
@@ -844,6 +845,7 @@ impl AIR for CairoAIR {
         let constraints = vec![
             initial_pc,
             initial_ap,
+            initial_fp,
             final_pc,
             final_ap,
             permutation_final_constraint,
-- 
2.43.0


From 44c8cf5bcfd9d04f217ee30b14edc11ba30f9fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:16 +0000
Subject: [PATCH 11/12] fix: fill memory holes after the program when there are
 output cells

---
 src/cairo/execution_trace.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cairo/execution_trace.rs b/src/cairo/execution_trace.rs
index 4a243aa..87fbfae 100644
--- a/src/cairo/execution_trace.rs
+++ b/src/cairo/execution_trace.rs
@@ -71,7 +71,14 @@ pub fn build_main_trace(
     public_input.range_check_max = Some(rc_max);
     fill_rc_holes(&mut main_trace, rc_holes);
 
-    let mut memory_holes = get_memory_holes(&address_cols, public_input.public_memory.len());
+    // The public memory holds the program and the output cells, but only the program
+    // occupies the first addresses of the memory.
+    let output_len = public_input
+        .memory_segments
+        .get(&MemorySegment::Output)
+        .map_or(0, |range| (range.end - range.start) as usize);
+    let codelen = public_input.public_memory.len() - output_len;
+    let mut memory_holes = get_memory_holes(&address_cols, codelen);
 
     if !memory_holes.is_empty() {
         fill_memory_holes(&mut main_trace, &mut memory_holes);
-- 
2.43.0


From e91a8f8927b8eb871d0a637d21fe8a3385864d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 12/12] fix: verify_cairo_proof panicked on public inputs
 without steps or range-check bounds

---
 src/cairo/air.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cairo/air.rs b/src/cairo/air.rs
index f3a0583..ecd86d2 100644
--- a/src/cairo/air.rs
+++ b/src/cairo/air.rs
@@ -1187,6 +1187,14 @@ pub fn verify_cairo_proof(
     pub_input: &PublicInputs,
     proof_options: &ProofOptions,
 ) -> bool {
+    // The boundary constraints are only defined for these public inputs
+    if pub_input.num_steps == 0
+        || pub_input.range_check_min.is_none()
+        || pub_input.range_check_max.is_none()
+    {
+        return false;
+    }
+
     verify::<Stark252PrimeField, CairoAIR>(proof, pub_input, proof_options)
 }
 
-- 
2.43.0

