From 0c05278dfa15389a101de31df180cff6b169cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/17] fix: lmpa NoZK::verify compares every row of the linear
 map, not only the first

---
 src/lmpa/no_zk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..d1395aa 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -280,7 +280,7 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
-- 
2.43.0


From 2220137f24a71167f92e8e3840da23ca30c88271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 02/17] fix: lmpa verify_lmpa_noZK checks the caller's map and
 target, and create_general proves the blinded witness

The verifier folded a matrix taken from the proof and never used the caller's
A and t, so any proof of any statement was accepted.  It now folds the caller's
A, requires the middle cross term to be the running target, and compares every
row.  create_general handed the raw witness and target to the sub-protocol
instead of the blinded ones its verifier expects.
---
 src/lmpa/no_zk.rs     | 14 +++++++-------
 src/lmpa/simple_zk.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d1395aa..743aafb 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -80,8 +80,6 @@ pub fn create(
 
 // For protocol 3.9 in qesa paper.
 pub struct lmpa_noZK{
-    A_Matrix: Vec<Vec<RistrettoPoint>>,
-    t_Vec: Vec<RistrettoPoint>,
     w_Vec: Vec<Scalar>,
     u_proof_Block: Vec<Vec<Vec<RistrettoPoint>>>,
 }
@@ -213,8 +211,6 @@ pub fn create_lmpa_noZK(
     }
 
     lmpa_noZK {
-        A_Matrix: A,
-        t_Vec: t,
         w_Vec: w,
         u_proof_Block: u_proof,
     }
@@ -305,7 +301,11 @@ impl lmpa_noZK {
             let mut j = 0;
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
             let vec_len = 2*shift+1; // index 0~2*shift
-            
+
+            // The middle cross term is the target itself: it is not the prover's to choose
+            if self.u_proof_Block[challenge_index][shift] != t {
+                return false;
+            }
 
             for u_v in self.u_proof_Block[challenge_index].iter() {
                 for u_l in u_v.iter() {
@@ -376,9 +376,9 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..e761ec7 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -79,11 +79,18 @@ pub fn create_general(
         .map(|(witness, random)| beta * witness + random)
         .collect();
 
+    //The target of the blinded witness.
+    let t_prime: Vec<RistrettoPoint> = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
+
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
-        t.clone(),
+        w_prime,
+        t_prime,
         n, //cols
         m, //rows
         k, //k
-- 
2.43.0


From 71372fee07e2feb19cda2fd3d434eec39cc7103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 03/17] fix: lmpa no longer prints the witness and challenges
 to stdout

---
 src/lmpa/no_zk.rs | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 743aafb..9d7404e 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -59,7 +59,6 @@ pub fn create(
         R_Vec.push(R);
 
         let challenge = transcript.challenge_scalar(b"challenge");
-        println!("zouyudi-create challenge:{:?}", challenge);
 
         let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
         A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
@@ -100,7 +99,6 @@ pub fn create_lmpa_noZK(
         let chunk_size = n/k;
         let A_T = matrix_split(&A, chunk_size);
         let w_T: Vec<_> = matrix_split(&vec![w.clone()], chunk_size);
-        println!("A_T:{:?}\n, w_T:{:?}", A_T, w_T);
 
         let mut i = 0;
         let mut j = 0;
@@ -112,7 +110,6 @@ pub fn create_lmpa_noZK(
                 let l = shift + j - i;
                 if( l != shift) {
                     let u_l_t = matrixpoint_vector_mul(&A_t, &w_vec[0]);
-                    println!("u_l_t:{:?}, u_vec_l: {:?}", u_l_t, u_vec[l]);
                     u_vec[l] = rowpoint_rowpoint_add(&u_vec[l], &u_l_t);
                    
                 } else {
@@ -126,7 +123,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         j = 0;
 
-        println!("u_vec: {:?}", u_vec);
 
         for u_v in u_vec.iter() {
             for u_l in u_v.iter() {
@@ -138,10 +134,8 @@ pub fn create_lmpa_noZK(
         let x = transcript.challenge_scalar(b"challenge_x");
 
         let x_vec: Vec<_> = vandemonde_vector(x, k); 
-        println!("x_vec: {:?}", x_vec);
 
         let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-        println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
         let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
         for x in x_vec.clone() {
@@ -159,7 +153,6 @@ pub fn create_lmpa_noZK(
         }
         i = 0;
         j = 0;
-        println!("z_vec: {:?}", z_vec);
 
         let mut new_A: Vec<_> = Vec::new();
         while i < k {
@@ -174,7 +167,6 @@ pub fn create_lmpa_noZK(
         i = 0;
         
         A = new_A.pop().unwrap();
-        println!("A: {:?}", A);
 
         let mut new_w: Vec<_> = Vec::new();
         while i < k {
@@ -189,7 +181,6 @@ pub fn create_lmpa_noZK(
         i = 0;
 
         w = new_w.pop().unwrap().pop().unwrap();
-        println!("w:{:?}", w);
 
         let mut new_t: Vec<_> = Vec::new();
         while i < vec_len {
@@ -201,9 +192,7 @@ pub fn create_lmpa_noZK(
             }
             i += 1;
         }
-        println!("new_t:{:?}", new_t);
         t = new_t.pop().unwrap();
-        println!("t:{:?}", t);
 
         i = 0;
         j = 0;
@@ -258,7 +247,6 @@ impl NoZK {
             }
 
             let challenge = transcript.challenge_scalar(b"challenge");
-            println!("zouyudi-verify challenge:{:?}", challenge);
             let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
             A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
 
@@ -316,10 +304,8 @@ impl lmpa_noZK {
             let x = transcript.challenge_scalar(b"challenge_x");
 
             let x_vec: Vec<_> = vandemonde_vector(x, k); 
-            println!("x_vec: {:?}", x_vec);
 
             let y_vec: Vec<_> = vandemonde_vector(x.invert(), k); 
-            println!("y_vec: {:?}, 1/x:{:?}", y_vec, x.invert());
 
             let mut z_vec: Vec<_> = vec![one; vec_len]; //default all as one.
             for x in x_vec.clone() {
@@ -337,7 +323,6 @@ impl lmpa_noZK {
             }
             i = 0;
             j = 0;
-            println!("z_vec: {:?}", z_vec);
 
             let mut new_A: Vec<_> = Vec::new();
             while i < k {
@@ -352,7 +337,6 @@ impl lmpa_noZK {
             i = 0;
             
             A = new_A.pop().unwrap();
-            println!("A: {:?}", A);
 
            
 
@@ -366,9 +350,7 @@ impl lmpa_noZK {
                 }
                 i += 1;
             }
-            println!("new_t:{:?}", new_t);
             t = new_t.pop().unwrap();
-            println!("t:{:?}", t);
 
             i = 0;
             j = 0;
-- 
2.43.0


From e00c7eaabcbd21c69043f813b4c36f382b51442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 04/17] fix: compute_mapping refuses commitments to the
 reserved first witness element

The result of the check was discarded.
---
 src/copy/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..6da0456 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -78,7 +78,7 @@ pub fn compute_mapping(
         .collect();
 
     // The first element in the witness is reserved and so users cannot commit to it.
-    unique_indices.contains(&0);
+    assert!(!unique_indices.contains(&0));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From cf375db570205c4559aebcec2b7774be43f3a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 05/17] fix: compute_mapping refuses sizes that do not fit its
 u16 positions

A witness of 65537 elements was treated as one of size 1, so messages were
mapped onto positions the witness already uses.
---
 src/copy/mapping.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index 6da0456..de07d2b 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -66,9 +66,13 @@ pub fn compute_mapping(
     witness_size: usize,
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
+    // Positions, indices and ids are stored as u16
+    assert!(n <= u16::max_value() as usize);
+    assert!(witness_size <= n);
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
+    assert!(num_commitments <= u16::max_value() as usize);
 
     // Collect all of the indices into a set(automatically removing duplicates)
     let unique_indices: BTreeSet<u16> = sets_of_indices
-- 
2.43.0


From 4a57e7521f8ab7c23d0fb4d95153801495ed96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/17] fix: inner_product asserts equal lengths instead of
 truncating

A constraint matrix whose rows are shorter than the witness was silently
evaluated on a prefix of it.
---
 src/math_utils.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index 8fff771..cedb4b8 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -2,6 +2,8 @@ use curve25519_dalek::scalar::Scalar;
 
 /// Computes the inner product between two scalar vectors
 pub fn inner_product(a: &[Scalar], b: &[Scalar]) -> Scalar {
+    assert_eq!(a.len(), b.len());
+
     a.iter().zip(b.iter()).map(|(a, b)| a * b).sum()
 }
 
-- 
2.43.0


From 7561503bc2a9c5772704428adeb912e1e32913f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:50 +0000
Subject: [PATCH 07/17] fix: Copy::verify rejects a mapping for a different
 number of commitments

Surplus commitments were added to the witness commitment without any equation
tying them to it; missing ones panicked.
---
 src/copy/copy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..1d90c3d 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -173,6 +173,11 @@ impl Copy {
     ) -> bool {
         let n = G_Vec.len();
 
+        // The mapping must describe exactly the commitments that are being checked
+        if map.num_commitments != commitments.len() {
+            return false;
+        }
+
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
-- 
2.43.0


From 6422bc3c331797da3f6b27d334bab153df109d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 08/17] fix: every constraint matrix is batched, also when
 there are more than n of them

Only n challenges were derived, and the matrices beyond the n-th were dropped
from the batch by the zip, so their equations were not enforced.
---
 src/ipa/qesa_inner.rs | 12 +++++++++---
 src/matrix.rs         |  3 +++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..f60f0ed 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,11 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    // Every matrix needs its own challenge
+    let num_challenges = n.max(gamma_i.block.len());
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
+    assert_eq!(x_challenges.len(), num_challenges);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -131,7 +134,10 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        // Every matrix needs its own challenge
+        let num_challenges = n.max(gamma_i.block.len());
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
diff --git a/src/matrix.rs b/src/matrix.rs
index c64cca1..5736c06 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -80,6 +80,9 @@ impl BlockMatrix {
     // Takes a block matrix and uses challenges to batch all vectors together into one matrix
     // by summing them
     pub fn block_matrix_batch(&self, challenges: &[Scalar]) -> Vec<Vec<Scalar>> {
+        // Without its own challenge, a matrix would be dropped from the batch
+        assert!(challenges.len() >= self.block.len());
+
         // This returns the block of matrices with each matrix multiplied by challenge
         let block_challenge: Vec<Vec<Vec<Scalar>>> = self
             .block
-- 
2.43.0


From b2280a630b66c5ae56aa23ad83f64e68fa9fc16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:00 +0000
Subject: [PATCH 09/17] fix: verifiers reject a malformed proof instead of
 panicking

Group elements that do not decompress, and vectors of the wrong length, come
from the prover: they make the proof invalid, not the verifier abort.
---
 src/copy/copy.rs      |  6 +++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/no_zk.rs      | 16 +++++++++++++---
 src/ipa/qesa_inner.rs | 10 ++++++++--
 src/lmpa/no_zk.rs     | 32 +++++++++++++++++++++++++-------
 5 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 1d90c3d..f963d25 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -192,7 +192,11 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        let C_w = match self.C_w.decompress() {
+            Some(C_w) => C_w,
+            None => return false,
+        };
+        commitment = commitment + C_w;
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..204a583 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(C_r) => C_r,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..edabc24 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,9 +122,19 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
+        // The proof comes from the prover: a malformed one is rejected
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
+        if !n.is_power_of_two()
+            || Ls.len() != n.trailing_zeros() as usize
+            || Rs.len() != Ls.len()
+        {
+            return false;
+        }
 
         let mut n = 1 << Ls.len();
 
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index f60f0ed..3c1a826 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -130,7 +130,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(c_prime_w) => c_prime_w,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -150,7 +153,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(c_prime_prime_w) => c_prime_prime_w,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 9d7404e..aca233d 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -238,11 +238,20 @@ impl NoZK {
                 .map(|(_, vec_right)| vec_right.clone())
                 .collect();
 
+            // The proof comes from the prover: it may have too few rounds
+            let (L, R) = match (
+                self.L_Vec.get(challenge_index),
+                self.R_Vec.get(challenge_index),
+            ) {
+                (Some(L), Some(R)) => (L, R),
+                _ => return false,
+            };
+
             // Add challenges to transcript
-            for u_L in self.L_Vec[challenge_index].iter() {
+            for u_L in L.iter() {
                 transcript.append_message(b"L", u_L.compress().as_bytes());
             }
-            for u_R in self.R_Vec[challenge_index].iter() {
+            for u_R in R.iter() {
                 transcript.append_message(b"R", u_R.compress().as_bytes());
             }
 
@@ -250,9 +259,9 @@ impl NoZK {
             let challenge_matrix = matrixpoint_scalar_mul(&A_1, &challenge);
             A = matrixpoint_matrix_add(&A_0, &challenge_matrix);
 
-            t = self.L_Vec[challenge_index]
+            t = L
                 .iter()
-                .zip(self.R_Vec[challenge_index].iter())
+                .zip(R.iter())
                 .zip(t.iter())
                 .map(|((l, r), t)| l + (challenge * t) + (challenge * challenge * r))
                 .collect();
@@ -290,12 +299,21 @@ impl lmpa_noZK {
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
             let vec_len = 2*shift+1; // index 0~2*shift
 
+            // The proof comes from the prover: it may have too few rounds or cross terms
+            let u_vec = match self.u_proof_Block.get(challenge_index) {
+                Some(u_vec) => u_vec,
+                None => return false,
+            };
+            if u_vec.len() != vec_len || u_vec.iter().any(|u_l| u_l.len() != m) {
+                return false;
+            }
+
             // The middle cross term is the target itself: it is not the prover's to choose
-            if self.u_proof_Block[challenge_index][shift] != t {
+            if u_vec[shift] != t {
                 return false;
             }
 
-            for u_v in self.u_proof_Block[challenge_index].iter() {
+            for u_v in u_vec.iter() {
                 for u_l in u_v.iter() {
                     transcript.append_message(b"u_l", u_l.compress().as_bytes());
                 }
@@ -342,7 +360,7 @@ impl lmpa_noZK {
 
             let mut new_t: Vec<_> = Vec::new();
             while i < vec_len {
-                let tmp = vectorpoint_scalar_mul(&self.u_proof_Block[challenge_index][i], &z_vec[i]);
+                let tmp = vectorpoint_scalar_mul(&u_vec[i], &z_vec[i]);
                 if (new_t.len() == 0) {
                     new_t.push(tmp);
                 } else {
-- 
2.43.0


From ccaa00577aacd079a2b02c5aa45ac838824ed833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 10/17] fix: lmpa refuses sizes for which its folding loops
 never end

An empty basis (n = 0) or a split into one chunk (k = 1) looped forever.
---
 src/lmpa/no_zk.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index aca233d..241a0bc 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -24,6 +24,9 @@ pub fn create(
 ) -> NoZK {
     let mut n = G_Vec.len();
 
+    // The halving below only reaches one from a power of two
+    assert!(n.is_power_of_two());
+
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
@@ -94,6 +97,9 @@ pub fn create_lmpa_noZK(
     zero: RistrettoPoint,
 ) -> lmpa_noZK
 {
+    // Splitting in fewer than two chunks never makes the witness shorter
+    assert!(k >= 2);
+
     let mut u_proof: Vec<Vec<Vec<RistrettoPoint>>> = Vec::new();
     while n >= k {
         let chunk_size = n/k;
@@ -218,6 +224,9 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // The halving below only reaches one from a power of two
+        assert!(n.is_power_of_two());
+
         let mut challenge_index = 0;
 
         while n != 1 {
@@ -289,6 +298,9 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        // Splitting in fewer than two chunks never makes the witness shorter
+        assert!(k >= 2);
+
         let mut challenge_index = 0;
         while n >= k {
             let chunk_size = n/k;
-- 
2.43.0


From 7c95b779dd5717f125a409d79fdf4ec34a88eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 11/17] fix: lmpa challenges depend on the target being proven

The target was never absorbed, so a prover could pick it after seeing the
challenges and prove a statement it has no witness for.
---
 src/lmpa/no_zk.rs     | 10 ++++++++++
 src/lmpa/simple_zk.rs | 20 ++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 241a0bc..2b16f74 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -27,6 +27,11 @@ pub fn create(
     // The halving below only reaches one from a power of two
     assert!(n.is_power_of_two());
 
+    // The challenges depend on the target t = Aw
+    for t_i in matrixpoint_vector_mul(&A, &w).iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut L_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
     let mut R_Vec: Vec<Vec<RistrettoPoint>> = Vec::new();
 
@@ -227,6 +232,11 @@ impl NoZK {
         // The halving below only reaches one from a power of two
         assert!(n.is_power_of_two());
 
+        // The challenges depend on the target
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index e761ec7..bd17042 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -25,6 +25,11 @@ pub fn create(
 ) -> SimpleZK {
     let mut n = G_Vec.len();
 
+    // The challenges depend on the target t = Aw
+    for t_i in matrixpoint_vector_mul(&A, &w).iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -63,6 +68,11 @@ pub fn create_general(
     k: usize,
 ) -> SimpleZK_general {
 
+    // The challenges depend on the target
+    for t_i in t.iter() {
+        transcript.append_message(b"t", t_i.compress().as_bytes());
+    }
+
     let mut rng = rand::thread_rng();
     let r: Vec<Scalar> = (0..n).map(|_| Scalar::random(&mut rng)).collect();
     //In qesa paper section 3.4.3, computing [A]r for random r is expensive.
@@ -112,6 +122,11 @@ impl SimpleZK_general {
         k: usize,
     ) -> bool {
 
+        // The challenges depend on the target
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
@@ -140,6 +155,11 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // The challenges depend on the target
+        for t_i in t.iter() {
+            transcript.append_message(b"t", t_i.compress().as_bytes());
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 346c040bf5354e92d8d94d4d9fa369b1502c7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:45 +0000
Subject: [PATCH 12/17] fix: the copy challenge depends on the commitments
 being opened

They were never absorbed, so a prover could pick them after seeing the
challenge and open them to other messages than those in the witness.
---
 src/copy/copy.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index f963d25..179c6c9 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -64,6 +64,18 @@ pub fn create(
         w_prime[msg_map.position_in_witness as usize] = *msg;
     }
 
+    // The challenge below depends on the commitments being opened
+    //
+    for (crs_id, (msgs, rnd)) in openings.iter().enumerate() {
+        let mut commitment = G_Vec[n - 1] * rnd;
+        let msgs_map = map.msgs_map.iter();
+        let crs = msgs_map.filter(|x| x.commitment_crs_id as usize == crs_id);
+        for (msg, msg_map) in msgs.iter().zip(crs) {
+            commitment = commitment + G_Vec[msg_map.commitment_index as usize] * msg;
+        }
+        transcript.append_message(b"commitment", commitment.compress().as_bytes());
+    }
+
     // 5. Compute commitment (C_w) to witness
     //
     let C_w = RistrettoPoint::vartime_multiscalar_mul(w_prime.iter(), G_Vec.iter());
@@ -178,6 +190,12 @@ impl Copy {
             return false;
         }
 
+        // The challenge below depends on the commitments being opened
+        //
+        for commitment in commitments.iter() {
+            transcript.append_message(b"commitment", commitment.compress().as_bytes());
+        }
+
         //1. Add commited witness to the transcript
         //
         transcript.append_message(b"c_w", self.C_w.as_bytes());
-- 
2.43.0


From 872aa15beab7ec3eec8d1dbf4dcf2e26eb197227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 13/17] fix: lmpa verifiers reject surplus rounds, rows and
 witness elements

They were never looked at, so a proof could be altered at will and stay valid.
---
 src/lmpa/no_zk.rs     | 15 +++++++++++++++
 src/lmpa/simple_zk.rs | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 2b16f74..650bda4 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -265,6 +265,9 @@ impl NoZK {
                 (Some(L), Some(R)) => (L, R),
                 _ => return false,
             };
+            if L.len() != t.len() || R.len() != t.len() {
+                return false;
+            }
 
             // Add challenges to transcript
             for u_L in L.iter() {
@@ -288,6 +291,11 @@ impl NoZK {
             challenge_index += 1;
         }
 
+        // Surplus rounds would go unchecked
+        if self.L_Vec.len() != challenge_index || self.R_Vec.len() != challenge_index {
+            return false;
+        }
+
         let base_witnes = vec![self.w];
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
@@ -398,6 +406,13 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
+        // Surplus rounds or witness elements would go unchecked
+        if self.u_proof_Block.len() != challenge_index
+            || A.iter().any(|row| row.len() != self.w_Vec.len())
+        {
+            return false;
+        }
+
         let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
         expected_t == t
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index bd17042..192bfe7 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -132,6 +132,11 @@ impl SimpleZK_general {
         }
         let beta = transcript.challenge_scalar(b"beta");
 
+        // A surplus element would go unchecked
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         t = t
             .iter()
             .zip(self.a.iter())
@@ -165,6 +170,11 @@ impl SimpleZK {
         }
         let beta = transcript.challenge_scalar(b"beta");
 
+        // A surplus element would go unchecked
+        if self.a.len() != t.len() {
+            return false;
+        }
+
         t = t
             .iter()
             .zip(self.a.iter())
-- 
2.43.0


From c2e6f65dadf5a53a96affa68ce0feb6d6b556246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 14/17] fix: lmpa verifiers refuse a matrix with surplus
 columns

Columns beyond the ones that are folded took no part in the check.
---
 src/lmpa/no_zk.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 650bda4..94d0417 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -232,6 +232,9 @@ impl NoZK {
         // The halving below only reaches one from a power of two
         assert!(n.is_power_of_two());
 
+        // Surplus columns would not be folded
+        assert!(A.iter().all(|row| row.len() == n));
+
         // The challenges depend on the target
         for t_i in t.iter() {
             transcript.append_message(b"t", t_i.compress().as_bytes());
@@ -324,6 +327,9 @@ impl lmpa_noZK {
             let chunk_size = n/k;
             let A_T = matrix_split(&A, chunk_size);
 
+            // Surplus columns would not be folded
+            assert_eq!(A_T.len(), k);
+
             let mut i = 0;
             let mut j = 0;
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
-- 
2.43.0


From 00d23e8ac4de2fcc6e1028f8a9bef70c9d6ced98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 15/17] fix: Copy::verify checks the proof's copy of the
 modified commitment

inner.c_prime_w was replaced and never looked at, so it could be altered at will.
---
 src/copy/copy.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 179c6c9..78ee975 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -250,6 +250,12 @@ impl Copy {
             gamma_i.push(matrix);
         }
 
+        // The proof's own copy of the modified commitment must agree with it
+        //
+        if self.inner.c_prime_w != commitment.compress() {
+            return false;
+        }
+
         //4. Call Qesa_Inner as a sub-protocol using the modified commitment
         //
         let proof_inner = qesa_inner::Inner {
-- 
2.43.0


From cc822e96a6cede1c39f08c4c44b79bc48f1330c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:12 +0000
Subject: [PATCH 16/17] fix: refuse a basis without room for the two reserved
 positions

In builds without overflow checks, n - 2 wrapped around for n < 2 and messages
were mapped to positions beyond the end of the witness.
---
 src/copy/mapping.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index de07d2b..b11f4f1 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -69,6 +69,8 @@ pub fn compute_mapping(
     // Positions, indices and ids are stored as u16
     assert!(n <= u16::max_value() as usize);
     assert!(witness_size <= n);
+    // The last two positions are reserved for the randomness
+    assert!(n >= 2);
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
-- 
2.43.0


From 1b288c220746b2e77d7886a11107a1f19920dd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:00 +0000
Subject: [PATCH 17/17] fix: refuse openings whose messages do not match the
 mapping

---
 src/copy/copy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 78ee975..f096c41 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -69,7 +69,10 @@ pub fn create(
     for (crs_id, (msgs, rnd)) in openings.iter().enumerate() {
         let mut commitment = G_Vec[n - 1] * rnd;
         let msgs_map = map.msgs_map.iter();
-        let crs = msgs_map.filter(|x| x.commitment_crs_id as usize == crs_id);
+        let crs: Vec<&MessageMap> = msgs_map
+            .filter(|x| x.commitment_crs_id as usize == crs_id)
+            .collect();
+        assert_eq!(msgs.len(), crs.len());
         for (msg, msg_map) in msgs.iter().zip(crs) {
             commitment = commitment + G_Vec[msg_map.commitment_index as usize] * msg;
         }
-- 
2.43.0

