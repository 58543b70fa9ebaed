From 50df5cb52df1d680baf8d3949e4d57f144a184d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 01/18] verification hook: expose private modules under
 cfg(zok_verif)

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index af37987..0663d94 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,16 +22,25 @@ pub mod error;
 pub mod oracles;
 pub mod piop;
 pub mod rng;
+#[cfg(not(zok_verif))]
 mod util;
+#[cfg(zok_verif)]
+pub mod util;
 pub mod vo;
 
 pub mod indexer;
 #[allow(clippy::too_many_arguments)]
 pub mod lookup;
+#[cfg(not(zok_verif))]
 mod mock_prover;
+#[cfg(zok_verif)]
+pub mod mock_prover;
 pub mod multiproof;
 pub mod permutation;
+#[cfg(not(zok_verif))]
 mod turbo_plonk;
+#[cfg(zok_verif)]
+pub mod turbo_plonk;
 
 mod tests;
 
-- 
2.43.0


From 5e6553e3e0ed6445436dfaa929bb4793fe1a5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 02/18] fix: separate lookup constraints from the preceding
 constraint with its own power of alpha

---
 src/piop/prover.rs | 6 +++---
 src/turbo_plonk.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/piop/prover.rs b/src/piop/prover.rs
index 0fabd05..9816ba9 100644
--- a/src/piop/prover.rs
+++ b/src/piop/prover.rs
@@ -282,12 +282,12 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> PIOPforPolyIdentity<F, PC> {
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next power after the last alpha of permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            *powers_of_alpha.last().unwrap() * verifier_msg.alpha
         };
 
         let lookup_alphas: Vec<F> =
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 63470fc..5a9a521 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -1104,12 +1104,12 @@ where
             .collect();
 
         // For each lookup argument we need 5 alphas
-        // Again begin with last alpha after permutation argument
+        // Again begin with next power after the last alpha of permutation argument
         let lookups_begin_with = if let Some(alpha) = permutation_alphas.last()
         {
-            *alpha
+            *alpha * verifier_first_msg.alpha
         } else {
-            *powers_of_alpha.last().unwrap()
+            *powers_of_alpha.last().unwrap() * verifier_first_msg.alpha
         };
 
         let lookup_alphas: Vec<F> =
-- 
2.43.0


From 9aa2fae403f3ab4046ebc42d7bd87fea0a69a99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:46 +0000
Subject: [PATCH 03/18] fix: multiopen verifier rejects a wrong number of q
 evaluations and repeated points

---
 src/multiproof/error.rs    |  3 +++
 src/multiproof/piop/mod.rs | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/multiproof/error.rs b/src/multiproof/error.rs
index 35e408a..698a031 100644
--- a/src/multiproof/error.rs
+++ b/src/multiproof/error.rs
@@ -9,6 +9,9 @@ pub enum Error<E> {
 
     /// Pairing check does not hold.
     OpeningCheckFailed,
+
+    /// Number of q evaluations does not match number of opening sets.
+    WrongNumberOfQEvals,
 }
 
 impl<E> Error<E> {
diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 0034221..7bad0ef 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -18,6 +18,7 @@ use crate::{
         rotation::Rotation,
         traits::{CommittedOracle, Instantiable},
     },
+    piop::error::Error as PiopError,
     rng::FiatShamirRng,
 };
 
@@ -165,6 +166,11 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
             oracles.push(oracle)
         }
 
+        // There is exactly one q evaluation per opening set
+        if proof.q_evals.len() != opening_sets.len() {
+            return Err(Error::WrongNumberOfQEvals);
+        }
+
         // Max number of oracles in one opening set are all oracles
         let x1_powers: Vec<F> = successors(Some(F::one()), |x1_i| {
             Some(*x1_i * verifier_first_msg.x1)
@@ -202,9 +208,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
                         let prev =
                             q_i_evals_set.insert(evaluation_point, evaluation);
                         if prev.is_some() {
-                            panic!(
-                                "Same evaluation point for different rotations"
-                            )
+                            return Err(Error::PIOPError(
+                                PiopError::RepeatedRotation(*rotation),
+                            ));
                         }
                     }
 
-- 
2.43.0


From ba11a355bebccc055c04947190995d8d375c8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 04/18] fix: absorb all claimed evaluations into the transcript
 before multiopen

---
 src/turbo_plonk.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 5a9a521..bc49651 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -411,8 +411,6 @@ where
         let domain = GeneralEvaluationDomain::new(domain_size).unwrap();
         let omegas: Vec<F> = domain.elements().collect();
 
-        // TODO!!!! PUT ALL EVALS IN TRANSCRIPT
-
         // Compute witness evals
         let witness_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
             witness_oracles,
@@ -424,7 +422,6 @@ where
         let witness_evals: Vec<F> =
             evaluate_query_set(witness_oracles, &witness_query_set)?;
 
-        // fs_rng.absorb(&to_bytes![witness_evals].unwrap());
         // Compute fixed evals
 
         let fixed_query_set = PIOPforPolyIdentity::<F, PC>::get_query_set(
@@ -505,6 +502,21 @@ where
             .polynomial()
             .evaluate(&verifier_second_msg.xi);
 
+        // All evaluations have to be in transcript before deriving multiopen challenges
+        for evals in [
+            &witness_evals,
+            &fixed_oracle_evals,
+            &table_oracle_evals,
+            &permutation_oracle_evals,
+            &vec![q_blind_eval],
+            &lookup_evals,
+            &lookup_z_evals,
+            &z_evals,
+            &quotient_chunks_evals,
+        ] {
+            fs_rng.absorb(&to_bytes![evals].unwrap());
+        }
+
         // Multiopen
         let mut oracles: Vec<&dyn Instantiable<F>> = witness_oracles
             .iter()
@@ -1247,6 +1259,21 @@ where
             return Err(Error::QuotientNotZero);
         }
 
+        // All evaluations have to be in transcript before deriving multiopen challenges
+        for evals in [
+            &proof.witness_evals,
+            &proof.fixed_oracle_evals,
+            &proof.table_oracle_evals,
+            &proof.permutation_oracle_evals,
+            &vec![proof.q_blind_eval],
+            &proof.lookup_evals,
+            &proof.lookup_z_evals,
+            &proof.z_evals,
+            &proof.quotient_chunks_evals,
+        ] {
+            fs_rng.absorb(&to_bytes![evals].unwrap());
+        }
+
         let mut oracles: Vec<&dyn CommittedOracle<F, PC>> = witness_oracles
             .iter()
             .chain(lookup_polys_to_check_in_opening)
-- 
2.43.0


From abe811a9b6d91920b7d068581d57074f0c7abebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 05/18] fix: absorb public inputs into the transcript

---
 src/turbo_plonk.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index bc49651..984ddd8 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -163,6 +163,15 @@ where
     }
 }
 
+/// Absorbs a public polynomial; leading zero coefficients do not change the transcript
+fn absorb_public_input<F: PrimeField, FS: FiatShamirRng>(
+    fs_rng: &mut FS,
+    poly: &DensePolynomial<F>,
+) {
+    let poly = DensePolynomial::from_coefficients_slice(poly.coeffs());
+    fs_rng.absorb(&to_bytes![poly.coeffs].unwrap());
+}
+
 pub struct TurboPlonk<
     F: PrimeField,
     PC: HomomorphicCommitment<F>,
@@ -210,7 +219,12 @@ where
         zk_rng: &mut R,
     ) -> Result<TPProof<F, PC>, Error<PC::Error>> {
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // public inputs are part of the statement
+        for oracle in instance_oracles.iter() {
+            absorb_public_input(&mut fs_rng, oracle.polynomial());
+        }
 
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
@@ -700,7 +714,12 @@ where
         let verifier_init_state = PIOPforPolyIdentity::<F, PC>::init_verifier();
 
         let mut fs_rng =
-            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk, &public oracles to transcript, fixed evals
+            FS::initialize(&to_bytes![&Self::PROTOCOL_NAME].unwrap()); // TODO: add &pk.vk to transcript
+
+        // public inputs are part of the statement
+        for oracle in instance_oracles.iter() {
+            absorb_public_input(&mut fs_rng, &oracle.poly);
+        }
 
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
-- 
2.43.0


From 4efac9fa404c7d6f6971c182a5fd21172e565a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 06/18] fix: lookup verifier honours rotations of public and
 fixed columns

---
 src/lookup/mod.rs | 60 ++++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 480075f..246f35a 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -434,37 +434,39 @@ impl<F: PrimeField> LookupArgument<F> {
         let expression_evals = lookup_expressions.iter().map(|lookup_expr| {
             lookup_expr.evaluate(
                 &Self::ident,
-                &|query| match query.oracle_type {
-                    OracleType::Witness => {
-                        let evaluation_challenge =
-                            query.rotation.compute_evaluation_point(
-                                evaluation_challenge,
-                                omegas,
-                            );
-                        match witness_oracles_mapping.get(&query.label) {
-                            Some(index) => witness_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingWitnessOracle(
-                                query.label.clone(),
-                            )),
+                &|query| {
+                    let evaluation_challenge =
+                        query.rotation.compute_evaluation_point(
+                            evaluation_challenge,
+                            omegas,
+                        );
+                    match query.oracle_type {
+                        OracleType::Witness => {
+                            match witness_oracles_mapping.get(&query.label) {
+                                Some(index) => witness_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingWitnessOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Instance => {
-                        match instance_oracles_mapping.get(&query.label) {
-                            Some(index) => instance_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingInstanceOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Instance => {
+                            match instance_oracles_mapping.get(&query.label) {
+                                Some(index) => instance_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingInstanceOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
-                    }
-                    OracleType::Fixed => {
-                        match fixed_oracles_mapping.get(&query.label) {
-                            Some(index) => fixed_oracles[*index]
-                                .query(&evaluation_challenge),
-                            None => Err(PiopError::MissingFixedOracle(
-                                query.label.clone(),
-                            )),
+                        OracleType::Fixed => {
+                            match fixed_oracles_mapping.get(&query.label) {
+                                Some(index) => fixed_oracles[*index]
+                                    .query(&evaluation_challenge),
+                                None => Err(PiopError::MissingFixedOracle(
+                                    query.label.clone(),
+                                )),
+                            }
                         }
                     }
                 },
-- 
2.43.0


From 0026992dcb731989d8fbfe62fb7115423a691371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 07/18] fix: lookup arguments honour rotations of table queries

---
 src/lookup/mod.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index 246f35a..d47b51a 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -274,7 +274,11 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => {
-                                    Ok(table_oracles[*index].evals[i])
+                                    Ok(table_oracles[*index]
+                                        .query_at_omega_in_original_domain(
+                                            i,
+                                            table_query.rotation,
+                                        ))
                                 }
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
@@ -313,7 +317,7 @@ impl<F: PrimeField> LookupArgument<F> {
                             match table_oracles_mapping.get(&table_query.label)
                             {
                                 Some(index) => table_oracles[*index]
-                                    .query_in_coset(i, Rotation::curr()),
+                                    .query_in_coset(i, table_query.rotation),
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
@@ -508,8 +512,16 @@ impl<F: PrimeField> LookupArgument<F> {
                         OracleType::Fixed => {
                             match table_oracles_mapping.get(&table_query.label)
                             {
-                                Some(index) => table_oracles[*index]
-                                    .query(&evaluation_challenge),
+                                Some(index) => {
+                                    let evaluation_challenge = table_query
+                                        .rotation
+                                        .compute_evaluation_point(
+                                            evaluation_challenge,
+                                            omegas,
+                                        );
+                                    table_oracles[*index]
+                                        .query(&evaluation_challenge)
+                                }
                                 None => Err(PiopError::MissingFixedOracle(
                                     table_query.label.clone(),
                                 )),
-- 
2.43.0


From 22d20d8f1efa9f3aa97445e488f04761a53a00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:20 +0000
Subject: [PATCH 08/18] fix: indexer sizes the extended domain for all quotient
 coefficients and refuses too small degrees

---
 src/indexer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 2fd8190..79dce6f 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -92,7 +92,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             max_degree = max(max_degree, vo_degree?);
         }
 
-        Ok(max_degree - z_h_degree)
+        max_degree
+            .checked_sub(z_h_degree)
+            .ok_or(Error::QuotientTooSmall)
     }
 
     fn compute_zh_evals(
@@ -176,7 +178,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree).unwrap();
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap(); // polynomial of degree d has d + 1 coefficients
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
-- 
2.43.0


From ea40a23be29876a2f7a88e561b3f990b7b652efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 09/18] fix: indexer refuses circuits without a large enough
 evaluation domain

---
 src/indexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 79dce6f..daa5875 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -178,7 +178,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         // TODO: we can introduce next power of 2 check here instead of creating domain and then dividing
         let extended_coset_domain =
-            GeneralEvaluationDomain::<F>::new(quotient_degree + 1).unwrap(); // polynomial of degree d has d + 1 coefficients
+            GeneralEvaluationDomain::<F>::new(quotient_degree + 1) // polynomial of degree d has d + 1 coefficients
+                .ok_or(Error::IndexTooLarge)?;
 
         if extended_coset_domain.size() < domain.size() {
             return Err(Error::QuotientTooSmall);
@@ -216,7 +217,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let extended_coset_domain =
             GeneralEvaluationDomain::<F>::new(scaling_factor * domain.size())
-                .unwrap();
+                .ok_or(Error::IndexTooLarge)?;
 
         let zh_inverses_over_coset = Self::compute_zh_evals(
             &domain,
-- 
2.43.0


From 0294c5f9e6b1ccbe6a0f6703f30c2bc6bba5daa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 10/18] fix: indexer accounts for removed vanishing rows when
 sizing the copy argument

---
 src/indexer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index daa5875..7157213 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -197,9 +197,15 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
 
         let scaling_factor = extended_coset_domain.size() / domain.size();
         let scaling_factor = if num_of_oracles_to_permute > 0 {
+            // grand product over m - 1 columns has degree (m + 1)(n - 1), after division with zH of degree n - t
+            // it fits in domain of size m * n only when t <= m
+            let removed_rows = domain.size().saturating_sub(z_h.degree());
             max(
                 scaling_factor,
-                PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                max(
+                    PermutationArgument::<F>::MINIMAL_SCALING_FACTOR,
+                    removed_rows.next_power_of_two(),
+                ),
             )
         } else {
             scaling_factor
-- 
2.43.0


From 82cdb2c6d5cd0ea52930b64663a7d8976c493695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 11/18] fix: verifier rejects malformed proofs with an error

---
 src/error.rs       |  2 ++
 src/turbo_plonk.rs | 70 ++++++++++++++++++++++------------------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 8de93b6..f01a075 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -18,6 +18,8 @@ pub enum Error<E> {
     /// Non zero over K indentity does not hold
     QuotientNotZero,
     MultiproofError(MultiproofError<E>),
+    /// Number of commitments or evaluations in proof does not match the circuit
+    MalformedProof,
 
     QuotientTooSmall,
 }
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 984ddd8..1f7dbc1 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -745,21 +745,26 @@ where
             .map(|(i, oracle)| (oracle.get_label(), i))
             .collect();
 
-        let num_of_quotient_chunks = proof.quotient_chunk_commitments.len();
-        // SKIP FOR NOW
-        // let num_of_quotient_chunks =
-        //     vk.index_info.quotient_degree.next_power_of_two() / domain_size;
+        let num_of_quotient_chunks =
+            vk.index_info.extended_coset_domain.size() / domain_size;
 
-        // if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
-        //     || num_of_quotient_chunks != proof.quotient_chunks_evaluations.len()
-        // {
-        //     dbg!(
-        //         num_of_quotient_chunks,
-        //         proof.quotient_chunk_commitments.len(),
-        //         proof.quotient_chunks_evaluations.len(),
-        //     );
-        //     return Err(Error::WrongNumberOfChunks);
-        // }
+        if num_of_quotient_chunks != proof.quotient_chunk_commitments.len()
+            || num_of_quotient_chunks != proof.quotient_chunks_evals.len()
+        {
+            return Err(Error::WrongNumberOfChunks);
+        }
+
+        let num_of_lookups = vk.index_info.lookups.len();
+        if proof.witness_commitments.len() != witness_oracles.len()
+            || proof.lookup_commitments.len() != 2 * num_of_lookups
+            || proof.lookup_evals.len() != 3 * num_of_lookups
+            || proof.lookup_z_commitments.len() != num_of_lookups
+            || proof.lookup_z_evals.len() != 2 * num_of_lookups
+            || proof.permutation_oracle_evals.len()
+                != preprocessed.permutation_oracles.len()
+        {
+            return Err(Error::MalformedProof);
+        }
 
         // --------------------------------------------------------------------
         // First round
@@ -831,7 +836,9 @@ where
             &omegas,
         );
 
-        assert_eq!(query_set.len(), proof.witness_evals.len());
+        if query_set.len() != proof.witness_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // map claimed evaluations with proper oracles
         for ((poly_label, (_, point)), &evaluation) in
@@ -857,7 +864,9 @@ where
             &omegas,
         );
 
-        assert_eq!(fixed_query_set.len(), proof.fixed_oracle_evals.len());
+        if fixed_query_set.len() != proof.fixed_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             fixed_query_set.iter().zip(proof.fixed_oracle_evals.iter())
@@ -882,7 +891,9 @@ where
             &omegas,
         );
 
-        assert_eq!(table_query_set.len(), proof.table_oracle_evals.len());
+        if table_query_set.len() != proof.table_oracle_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         for ((poly_label, (_, point)), &evaluation) in
             table_query_set.iter().zip(proof.table_oracle_evals.iter())
@@ -901,10 +912,6 @@ where
 
         // Map permutation evals
         // Permutation oracles are opened just in evaluation challenge
-        assert_eq!(
-            preprocessed.permutation_oracles.len(),
-            proof.permutation_oracle_evals.len()
-        );
         for (sigma, &eval) in preprocessed
             .permutation_oracles
             .iter_mut()
@@ -933,16 +940,8 @@ where
 
         let lookup_permuted_oracles_commitments =
             proof.lookup_commitments.chunks(2);
-        assert_eq!(
-            lookup_permuted_oracles_commitments.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_permuted_oracles_evals = proof.lookup_evals.chunks(3);
-        assert_eq!(
-            lookup_permuted_oracles_evals.len(),
-            vk.index_info.lookups.len()
-        );
 
         let lookup_polys: Vec<_> = vk
             .index_info
@@ -1013,11 +1012,6 @@ where
             .flat_map(|(_, _, a_prime, s_prime)| vec![a_prime, s_prime]);
 
         let lookup_z_evals_chunks = proof.lookup_z_evals.chunks(2);
-        assert_eq!(
-            proof.lookup_z_commitments.len(),
-            vk.index_info.lookups.len()
-        );
-        assert_eq!(lookup_z_evals_chunks.len(), vk.index_info.lookups.len());
 
         let lookup_z_polys = proof
             .lookup_z_commitments
@@ -1047,7 +1041,9 @@ where
             .index_info
             .permutation_argument
             .number_of_z_polys(oracles_to_copy.len());
-        assert_eq!(num_of_z_polys, proof.z_commitments.len());
+        if num_of_z_polys != proof.z_commitments.len() {
+            return Err(Error::MalformedProof);
+        }
 
         // Each z is evaluated at: x, wx and w^ux(except the last one)
         let mut z_polys: Vec<_> = proof
@@ -1083,7 +1079,9 @@ where
             &omegas,
         );
 
-        assert_eq!(z_query_set.len(), proof.z_evals.len());
+        if z_query_set.len() != proof.z_evals.len() {
+            return Err(Error::MalformedProof);
+        }
 
         let z_mapping: BTreeMap<String, usize> = z_polys
             .iter()
-- 
2.43.0


From 37ba1aefce8dbdafcdfae4d7f74aaa6bc4812098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 12/18] fix: PlonkArith4 reads and registers its fourth wire

---
 src/vo/precompiled/plonk_arith.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vo/precompiled/plonk_arith.rs b/src/vo/precompiled/plonk_arith.rs
index a30ed27..7de6c78 100644
--- a/src/vo/precompiled/plonk_arith.rs
+++ b/src/vo/precompiled/plonk_arith.rs
@@ -68,7 +68,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
         let a = VirtualQuery::new(0, Rotation::curr(), OracleType::Witness);
         let b = VirtualQuery::new(1, Rotation::curr(), OracleType::Witness);
         let c = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
-        let d = VirtualQuery::new(2, Rotation::curr(), OracleType::Witness);
+        let d = VirtualQuery::new(3, Rotation::curr(), OracleType::Witness);
 
         let plonk_expression = {
             let qm: VirtualExpression<F> = qm.clone().into();
@@ -83,7 +83,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
             let a: VirtualExpression<F> = a.clone().into();
             let b: VirtualExpression<F> = b.clone().into();
             let c: VirtualExpression<F> = c.clone().into();
-            let d: VirtualExpression<F> = d.into();
+            let d: VirtualExpression<F> = d.clone().into();
 
             a.clone() * b.clone() * qm
                 + a * ql
@@ -94,7 +94,7 @@ impl<F: PrimeField> PrecompiledVO<F> for PlonkArith4 {
                 + qc
         };
 
-        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c])
+        (plonk_expression, vec![qm, ql, qr, q4, qo, qc, pi, a, b, c, d])
     }
 }
 
-- 
2.43.0


From e1e6ced9da126c5d383769fd334c4b26128ef89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/18] fix: copied columns are always opened at the current
 row

---
 src/turbo_plonk.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index 1f7dbc1..e2b448d 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -226,6 +226,11 @@ where
             absorb_public_input(&mut fs_rng, oracle.polynomial());
         }
 
+        // copy argument queries each copied oracle at the current row
+        for oracle in witness_oracles.iter_mut().filter(|o| o.should_permute) {
+            oracle.register_rotation(Rotation::curr());
+        }
+
         // compute extended evals of each oracle
         for oracle in witness_oracles.iter_mut() {
             oracle.compute_extended_evals(
@@ -721,6 +726,11 @@ where
             absorb_public_input(&mut fs_rng, &oracle.poly);
         }
 
+        // copy argument queries each copied oracle at the current row
+        for oracle in witness_oracles.iter_mut().filter(|o| o.should_permute) {
+            oracle.register_rotation(Rotation::curr());
+        }
+
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
             .enumerate()
-- 
2.43.0


From 097e5afcee173a1637dcfbe76bd8ec99c0efb6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:19 +0000
Subject: [PATCH 14/18] fix: openings bind the permutation columns and the
 blinding selector

---
 src/data_structures.rs | 6 +++++-
 src/turbo_plonk.rs     | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/data_structures.rs b/src/data_structures.rs
index c9a11b0..f11aee3 100644
--- a/src/data_structures.rs
+++ b/src/data_structures.rs
@@ -6,7 +6,8 @@ use crate::{
     commitment::HomomorphicCommitment,
     oracles::{
         fixed::{FixedProverOracle, FixedVerifierOracle},
-        traits::Instantiable,
+        rotation::Rotation,
+        traits::{ConcreteOracle, Instantiable},
     },
     permutation::PermutationArgument,
     vo::LookupVirtualOracle,
@@ -80,7 +81,9 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
+        // permutation oracles and q_blind are opened at evaluation challenge
         for oracle in permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
             oracle.compute_extended_evals(&index_info.extended_coset_domain);
         }
 
@@ -89,6 +92,7 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>>
         }
 
         let mut q_blind = q_blind.clone();
+        q_blind.register_rotation(Rotation::curr());
         q_blind.compute_extended_evals(&index_info.extended_coset_domain);
 
         Self {
diff --git a/src/turbo_plonk.rs b/src/turbo_plonk.rs
index e2b448d..3d0bc22 100644
--- a/src/turbo_plonk.rs
+++ b/src/turbo_plonk.rs
@@ -731,6 +731,12 @@ where
             oracle.register_rotation(Rotation::curr());
         }
 
+        // permutation oracles and q_blind have to be opened at evaluation challenge
+        for oracle in preprocessed.permutation_oracles.iter_mut() {
+            oracle.register_rotation(Rotation::curr());
+        }
+        preprocessed.q_blind.register_rotation(Rotation::curr());
+
         let witness_oracles_mapping: BTreeMap<String, usize> = witness_oracles
             .iter()
             .enumerate()
-- 
2.43.0


From b04abd1122081cf7a36e4caae52dac716b5a4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:40 +0000
Subject: [PATCH 15/18] fix: lookups over products of columns size the quotient
 instead of panicking

---
 src/indexer.rs    | 120 +++++++++++++++++++++++++++++++++-------------
 src/lookup/mod.rs |   6 ---
 2 files changed, 86 insertions(+), 40 deletions(-)

diff --git a/src/indexer.rs b/src/indexer.rs
index 7157213..f12596e 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -18,7 +18,7 @@ use crate::{
     permutation::PermutationArgument,
     piop::error::Error as PiopError,
     util::compute_vanishing_poly_over_coset,
-    vo::{LookupVirtualOracle, VirtualOracle},
+    vo::{expression::Expression, LookupVirtualOracle, VirtualOracle},
 };
 
 /*
@@ -43,6 +43,50 @@ pub struct Indexer<F: PrimeField, PC: HomomorphicCommitment<F>> {
 }
 
 impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
+    #[allow(clippy::too_many_arguments)]
+    fn compute_expression_degree(
+        expression: &Expression<F>,
+        witness_oracles: &[impl WitnessOracle<F>],
+        instance_oracles: &[impl InstanceOracle<F>],
+        fixed_oracles: &[impl FixedOracle<F>],
+        witness_oracles_mapping: &BTreeMap<String, usize>,
+        instance_oracles_mapping: &BTreeMap<String, usize>,
+        fixed_oracles_mapping: &BTreeMap<String, usize>,
+        domain_size: usize,
+    ) -> Result<usize, PiopError> {
+        expression.degree(&|query| -> Result<_, _> {
+            match query.oracle_type {
+                OracleType::Witness => {
+                    match witness_oracles_mapping.get(&query.label) {
+                        Some(index) => Ok(witness_oracles[*index]
+                            .get_degree(domain_size)),
+                        None => Err(PiopError::MissingWitnessOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Instance => {
+                    match instance_oracles_mapping.get(&query.label) {
+                        Some(index) => Ok(instance_oracles[*index]
+                            .get_degree(domain_size)),
+                        None => Err(PiopError::MissingInstanceOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+                OracleType::Fixed => {
+                    match fixed_oracles_mapping.get(&query.label) {
+                        Some(index) => Ok(fixed_oracles[*index]
+                            .get_degree(domain_size)),
+                        None => Err(PiopError::MissingFixedOracle(
+                            query.label.clone(),
+                        )),
+                    }
+                }
+            }
+        })
+    }
+
     #[allow(clippy::too_many_arguments)]
     fn compute_quotient_degree(
         witness_oracles: &[impl WitnessOracle<F>],
@@ -57,38 +101,16 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
     ) -> Result<usize, Error<PC::Error>> {
         let mut max_degree = 0;
         for &vo in vos {
-            let vo_degree =
-                vo.get_expression()?.degree(&|query| -> Result<_, _> {
-                    match query.oracle_type {
-                        OracleType::Witness => {
-                            match witness_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(witness_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingWitnessOracle(
-                                    query.label.clone(),
-                                )),
-                            }
-                        }
-                        OracleType::Instance => {
-                            match instance_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(instance_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingInstanceOracle(
-                                    query.label.clone(),
-                                )),
-                            }
-                        }
-                        OracleType::Fixed => {
-                            match fixed_oracles_mapping.get(&query.label) {
-                                Some(index) => Ok(fixed_oracles[*index]
-                                    .get_degree(domain_size)),
-                                None => Err(PiopError::MissingFixedOracle(
-                                    query.label.clone(),
-                                )),
-                            }
-                        }
-                    }
-                });
+            let vo_degree = Self::compute_expression_degree(
+                vo.get_expression()?,
+                witness_oracles,
+                instance_oracles,
+                fixed_oracles,
+                witness_oracles_mapping,
+                instance_oracles_mapping,
+                fixed_oracles_mapping,
+                domain_size,
+            );
             max_degree = max(max_degree, vo_degree?);
         }
 
@@ -212,7 +234,37 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
         };
 
         let scaling_factor = if !lookups.is_empty() {
-            max(scaling_factor, LookupArgument::<F>::MINIMAL_SCALING_FACTOR)
+            let mut max_degree = 0;
+            for lookup in &lookups {
+                for expression in lookup.get_expressions()? {
+                    let degree = Self::compute_expression_degree(
+                        expression,
+                        witness_oracles,
+                        instance_oracles,
+                        fixed_oracles,
+                        &witness_oracles_mapping,
+                        &instance_oracles_mapping,
+                        &fixed_oracles_mapping,
+                        domain.size(),
+                    )?;
+                    max_degree = max(max_degree, degree);
+                }
+            }
+
+            // grand product multiplies folded expressions with active rows, z and folded table
+            let quotient_size = (max_degree + 3 * (domain.size() - 1) + 1)
+                .saturating_sub(z_h.degree());
+            let lookup_scaling_factor = ((quotient_size + domain.size() - 1)
+                / domain.size())
+            .next_power_of_two();
+
+            max(
+                scaling_factor,
+                max(
+                    LookupArgument::<F>::MINIMAL_SCALING_FACTOR,
+                    lookup_scaling_factor,
+                ),
+            )
         } else {
             scaling_factor
         };
diff --git a/src/lookup/mod.rs b/src/lookup/mod.rs
index d47b51a..a2da0e0 100644
--- a/src/lookup/mod.rs
+++ b/src/lookup/mod.rs
@@ -243,12 +243,6 @@ impl<F: PrimeField> LookupArgument<F> {
             should_permute: false,
         };
 
-        // sanity check
-        assert_eq!(
-            a.evals_at_coset_of_extended_domain.clone().unwrap(),
-            extended_coset_domain.coset_fft(&a.poly)
-        );
-
         // For now we are supporting just fixed table queries, easily we can extend it to table expressions and
         // we will just repeat what is done for A
         let mut s_original_domain_evals =
-- 
2.43.0


From 4a007be626f9e0110c8adb4b7b9cfc43cb7e36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:31 +0000
Subject: [PATCH 16/18] fix: the multiopen verifier no longer panics on
 interpolations whose partial sums drop in degree

---
 src/multiproof/piop/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multiproof/piop/mod.rs b/src/multiproof/piop/mod.rs
index 7bad0ef..a944190 100644
--- a/src/multiproof/piop/mod.rs
+++ b/src/multiproof/piop/mod.rs
@@ -234,7 +234,8 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>, FS: FiatShamirRng>
 
                 let mut r_poly = DensePolynomial::zero();
                 for (l_i, &r_i) in lagrange_bases.iter().zip(r_evals.iter()) {
-                    r_poly += &(l_i * r_i)
+                    // unlike +=, this keeps r_poly free of leading zeros
+                    r_poly = &r_poly + &(l_i * r_i)
                 }
 
                 Ok((q_eval - r_poly.evaluate(&verifier_second_msg.x3))
-- 
2.43.0


From 429ee52ac1e96ddd23438f6ae895083bfdd52ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:19 +0000
Subject: [PATCH 17/18] fix: vanishing polynomials of full degree that are not
 X^n - 1 over a coset of size n

---
 src/indexer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/indexer.rs b/src/indexer.rs
index f12596e..6432356 100644
--- a/src/indexer.rs
+++ b/src/indexer.rs
@@ -147,6 +147,14 @@ impl<F: PrimeField, PC: HomomorphicCommitment<F>> Indexer<F, PC> {
             );
             ark_ff::batch_inversion(&mut zh_evals);
             zh_evals
+        } else if z_h.degree() >= extended_coset_domain.size() {
+            // coset_fft would drop the leading coefficient
+            let mut zh_evals: Vec<F> = extended_coset_domain
+                .elements()
+                .map(|x| z_h.evaluate(&(F::multiplicative_generator() * x)))
+                .collect();
+            ark_ff::batch_inversion(&mut zh_evals);
+            zh_evals
         } else {
             let mut zh_evals = extended_coset_domain.coset_fft(&z_h);
             ark_ff::batch_inversion(&mut zh_evals);
-- 
2.43.0


From 3f1c06c74303e02a036f43ed440a9b5cbd432f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:19 +0000
Subject: [PATCH 18/18] fix: combining commitment randomness of different
 lengths no longer leaves leading zeros that panic on opening

---
 src/commitment.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/commitment.rs b/src/commitment.rs
index 44ec0ad..7526861 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -108,10 +108,14 @@ where
         a: &Self::Randomness,
         b: &Self::Randomness,
     ) -> Self::Randomness {
-        a.clone() + b
+        let mut rand = a.clone();
+        Self::add_assign_rand(&mut rand, b);
+        rand
     }
 
     fn add_assign_rand(a: &mut Self::Randomness, b: &Self::Randomness) {
-        a.blinding_polynomial += &b.blinding_polynomial
+        // unlike the sum, += keeps leading zeros when terms cancel
+        a.blinding_polynomial =
+            &a.blinding_polynomial + &b.blinding_polynomial
     }
 }
-- 
2.43.0

