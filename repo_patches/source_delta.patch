From c8a447b4424ff31aa84a4a1f56dba70fe907ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:48 +0000
Subject: [PATCH 01/21] sim hooks: expose the crate to the deterministic
 simulator under --cfg onion_sim

---
 src/bfv.rs         | 18 +++++++++++++
 src/evaluations.rs | 67 ++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs         | 18 +++++++++++++
 src/omr.rs         | 10 +++++++
 src/pvw.rs         | 18 +++++++++++++
 5 files changed, 131 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 1c06d09..d3d27fd 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -770,6 +770,24 @@ impl RelinearizationKey {
     }
 }
 
+/// Read access to key material for the deterministic simulator.
+#[cfg(onion_sim)]
+mod sim_access {
+    use super::*;
+
+    impl GaliosKey {
+        pub fn sim_ksk(&self) -> &Ksk {
+            &self.gk
+        }
+    }
+
+    impl RelinearizationKey {
+        pub fn sim_ksk(&self) -> &Ksk {
+            &self.ksk
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/evaluations.rs b/src/evaluations.rs
index bbe39a4..146da02 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -313,6 +313,73 @@ impl Evaluation {
     }
 }
 
+/// Handles on the private PIR roles for the deterministic simulator.
+#[cfg(onion_sim)]
+pub mod sim_access {
+    use super::*;
+
+    pub struct PirClient(Client);
+
+    impl PirClient {
+        pub fn new(first_dim: usize, dim: usize) -> Self {
+            PirClient(Client::new(first_dim, dim))
+        }
+
+        pub fn encode(
+            &self,
+            query_dims: Vec<usize>,
+            db_rows: usize,
+            bfv_params: &Arc<BfvParameters>,
+            sk: &SecretKey,
+        ) -> Vec<u64> {
+            self.0.encode(query_dims, db_rows, bfv_params, sk)
+        }
+    }
+
+    pub struct PirServer(Server);
+
+    impl PirServer {
+        pub fn new(
+            first_dim: usize,
+            dim: usize,
+            db: &Vec<Plaintext>,
+            params: &Arc<BfvParameters>,
+        ) -> Self {
+            PirServer(Server::new(first_dim, dim, db, params))
+        }
+
+        pub fn decode(
+            &self,
+            query_cts: Vec<BfvCipherText>,
+            eval_key: &PirEvalKey,
+            params: &Arc<BfvParameters>,
+        ) -> Vec<BfvCipherText> {
+            self.0.decode(query_cts, &eval_key.0, params)
+        }
+    }
+
+    pub struct PirEvalKey(Evaluation);
+
+    impl PirEvalKey {
+        pub fn build(sk: &SecretKey, params: &Arc<BfvParameters>) -> Self {
+            PirEvalKey(Evaluation::build(sk, params))
+        }
+
+        pub fn unpack(&self, ct: BfvCipherText) -> Vec<BfvCipherText> {
+            self.0.unpack(ct)
+        }
+
+        /// Galois keys, ordered by exponent
+        pub fn galois_keys(&self) -> Vec<(usize, &GaliosKey)> {
+            self.0.gk.iter().map(|(k, v)| (*k, v)).sorted_by_key(|(k, _)| *k).collect()
+        }
+
+        pub fn sk_rgsw(&self) -> &RgswCt {
+            &self.0.sk_rgsw
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/lib.rs b/src/lib.rs
index 252fdca..4864323 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 mod bfv;
 mod evaluations;
 mod ksk;
@@ -9,3 +11,19 @@ mod rgsw;
 mod rns;
 mod rq;
 mod utils;
+
+/// View of the crate for the deterministic simulator. It is compiled only with
+/// `--cfg onion_sim`; without that flag the crate has no public items.
+#[cfg(onion_sim)]
+pub mod sim_api {
+    pub use crate::bfv::*;
+    pub use crate::evaluations::sim_access::*;
+    pub use crate::ksk::*;
+    pub use crate::modulus::*;
+    pub use crate::omr::sim_access::*;
+    pub use crate::pvw::*;
+    pub use crate::rgsw::*;
+    pub use crate::rns::*;
+    pub use crate::rq::*;
+    pub use crate::utils::*;
+}
diff --git a/src/omr.rs b/src/omr.rs
index 3af75fa..636e61c 100644
--- a/src/omr.rs
+++ b/src/omr.rs
@@ -55,5 +55,15 @@ fn process() {
     }
 }
 
+/// Handle on the private inner product for the deterministic simulator.
+#[cfg(onion_sim)]
+pub mod sim_access {
+    use super::*;
+
+    pub fn omr_inner_product(cts: &Vec<BfvCipherText>, polys: &Vec<Poly>) -> BfvCipherText {
+        inner_product(cts, polys)
+    }
+}
+
 // #[tests]
 // mod tests {}
diff --git a/src/pvw.rs b/src/pvw.rs
index a158eb1..1b77e6a 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -156,6 +156,24 @@ pub struct PvwCiphertext {
     pub b: Vec<u64>,
 }
 
+/// Read access to key material for the deterministic simulator.
+#[cfg(onion_sim)]
+mod sim_access {
+    use super::*;
+
+    impl PvwSk {
+        pub fn sim_rows(&self) -> &Vec<Vec<u64>> {
+            &self.0
+        }
+    }
+
+    impl PvwPk {
+        pub fn sim_rows(&self) -> &Vec<PvwCiphertext> {
+            &self.0
+        }
+    }
+}
+
 mod tests {
     use super::*;
 
-- 
2.43.0


From dcddc11b3c79bc26afa04c9cbe206ee5d9c5ded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 02/21] fix: build the expansion monomials from their
 coefficients

Evaluation::gen_x_pows derived X^(N - 2^i) from X by a substitution with an
even exponent, which Substitution::new refuses, so every query expansion and
with it Server::decode panicked.
---
 src/evaluations.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 146da02..9df1ef0 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -300,14 +300,12 @@ impl Evaluation {
 
     fn gen_x_pows(n: usize, ctx: &Arc<RqContext>) -> Vec<Poly> {
         let mut polys = Vec::<Poly>::new();
-        // X
-        let x = Poly::try_from_vec_u64(&ctx, &[0u64, 1]);
         for i in 0..ilog2(n) {
-            let mut xi = x.clone();
             // X^-(2^i) = -X^(N - 2^i), since X^-k = -(X^(N-k))
             let ex = n - 2usize.pow(i as u32);
-            xi = -&xi.substitute(&Substitution::new(&x.context, ex));
-            polys.push(xi);
+            let mut coeffs = vec![0u64; n];
+            coeffs[ex] = 1;
+            polys.push(-&Poly::try_from_vec_u64(ctx, &coeffs));
         }
         polys
     }
-- 
2.43.0


From 7e09928aa5a14a284afc10c2d5a4af0bf0fdb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 03/21] fix: halve the second row's index in the slot map

The slot map of BfvParameters used m - pos - 1 instead of (m - pos - 1) / 2 for
the second row (compare SEAL's batch encoder), so slots collided and SIMD
plaintexts did not decode to what was encoded.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index d3d27fd..cfa151c 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -147,7 +147,7 @@ impl BfvParameters {
         let mut matrix_reps_index_map = vec![0usize; degree];
         for i in 0..row_size {
             let index1 = (pos - 1) >> 1;
-            let index2 = (m - pos - 1);
+            let index2 = (m - pos - 1) >> 1;
 
             matrix_reps_index_map[i] = index1.reverse_bits() >> (degree.leading_zeros() + 1);
             matrix_reps_index_map[row_size | i] =
-- 
2.43.0


From 29197807e783398b2657ab32f250de3797b76274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 04/21] fix: accumulate the cross terms of a ciphertext product

Mul overwrote cs[i + j] instead of adding to it, so the product of two
ciphertexts lost all but the last cross term and decrypted to garbage.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index cfa151c..6dd8aee 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -496,7 +496,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
         ];
         for i in 0..self.cts.len() {
             for j in 0..rhs.cts.len() {
-                cs[i + j] = &self_scaled[i] * &other_scaled[j];
+                cs[i + j] += &(&self_scaled[i] * &other_scaled[j]);
             }
         }
 
-- 
2.43.0


From 55e7d4ea3d0a11e4d2710075f0a239251b6a0056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 05/21] fix: give a fresh ciphertext the level of its plaintext

encrypt_poly labelled every ciphertext level 0, so one made from a plaintext at
a lower level could not be decrypted or combined with others of its level.
---
 src/bfv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 6dd8aee..0a63f34 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -324,7 +324,7 @@ impl SecretKey {
         BfvCipherText {
             cts: vec![b, a],
             params: self.params.clone(),
-            level: 0, // FIXME: change this
+            level: self.params.ctx_level(&pt.context).unwrap(),
         }
     }
 
-- 
2.43.0


From 3990b927c5257410e293ee46da18abb1d0ec49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 06/21] fix: add a polynomial to the first ciphertext component
 only

Adding an encoded plaintext added it to c1 as well, which multiplies it by the
secret key: the result decrypted to garbage. Components beyond the second were
dropped.
---
 src/bfv.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 0a63f34..4cb47a2 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -443,12 +443,12 @@ impl Add<&Poly> for &BfvCipherText {
     fn add(self, rhs: &Poly) -> Self::Output {
         assert!(self.cts[0].context == rhs.context);
 
-        let c0 = &self.cts[0] + rhs;
-        let c1 = &self.cts[1] + rhs;
+        let mut cts = self.cts.clone();
+        cts[0] += rhs;
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
-- 
2.43.0


From ffbc85824da3638e457d7e2ff32b590789fc6c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 07/21] fix: keep all components of a ciphertext in additions
 and plaintext products

A product of two ciphertexts has three components until it is relinearised;
adding, subtracting or multiplying it by a plaintext, polynomial or integer
silently dropped the third one.
---
 src/bfv.rs | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 4cb47a2..344ce08 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -427,12 +427,18 @@ impl Add<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] + &rhs.cts[0];
-        let c1 = &self.cts[1] + &rhs.cts[1];
+        let mut cts = self.cts.clone();
+        for (i, c) in rhs.cts.iter().enumerate() {
+            if i < cts.len() {
+                cts[i] += c;
+            } else {
+                cts.push(c.clone());
+            }
+        }
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -460,12 +466,18 @@ impl Sub<&BfvCipherText> for &BfvCipherText {
         assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
-        let c0 = &self.cts[0] - &rhs.cts[0];
-        let c1 = &self.cts[1] - &rhs.cts[1];
+        let mut cts = self.cts.clone();
+        for (i, c) in rhs.cts.iter().enumerate() {
+            if i < cts.len() {
+                cts[i] -= c;
+            } else {
+                cts.push(-c);
+            }
+        }
 
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts,
             level: self.level,
         }
     }
@@ -522,12 +534,9 @@ impl Mul<&Plaintext> for &BfvCipherText {
         let mut pt_poly = Poly::try_from_vec_u64(&self.params.q_ctxs[self.level], &rhs.values);
         pt_poly.change_representation(Representation::Ntt);
 
-        let c0 = &self.cts[0] * &pt_poly;
-        let c1 = &self.cts[1] * &pt_poly;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * &pt_poly).collect(),
             level: self.level,
         }
     }
@@ -539,12 +548,9 @@ impl Mul<&Poly> for &BfvCipherText {
         assert!(rhs.context == self.cts[0].context);
         assert!(rhs.representation == Representation::Ntt);
 
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
@@ -553,12 +559,9 @@ impl Mul<&Poly> for &BfvCipherText {
 impl Mul<&BigUint> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &BigUint) -> Self::Output {
-        let c0 = &self.cts[0] * rhs;
-        let c1 = &self.cts[1] * rhs;
-
         BfvCipherText {
             params: self.params.clone(),
-            cts: vec![c0, c1],
+            cts: self.cts.iter().map(|c| c * rhs).collect(),
             level: self.level,
         }
     }
-- 
2.43.0


From 3c786efacf987a2f76833573be52ec0534690c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 08/21] fix: measure the noise of ciphertexts with more than
 two components

measure_noise ignored every component after the second and reported the noise
of an unrelinearised product as the whole modulus.
---
 src/bfv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index 344ce08..d6b8389 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -390,8 +390,12 @@ impl SecretKey {
 
         let mut sk = Poly::try_from_vec_i64(&ctx, &self.coeffs);
         sk.change_representation(Representation::Ntt);
-        let mut m = &ct.cts[1] * &sk;
-        m += &ct.cts[0];
+        let mut m = ct.cts[0].clone();
+        let mut sk_i = sk.clone();
+        for c in &ct.cts[1..] {
+            m += &(c * &sk_i);
+            sk_i *= &sk;
+        }
 
         m -= &ideal_m;
         m.change_representation(Representation::PowerBasis);
-- 
2.43.0


From fc73ba27f5d37a4d632a0abfd1f91528dae20208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:12 +0000
Subject: [PATCH 09/21] fix: count the further dimensions of the database
 exactly

Server::decode derived the number of dimensions from rounded-down logarithms,
which is wrong for dimension sizes that are not powers of two (9 / 3 gives 3
instead of 2 further dimensions) and then indexed past the query.
---
 src/evaluations.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 9df1ef0..702754a 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -117,9 +117,7 @@ impl Server {
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
 
-        let dimensions = ilog2(self.db.len() / self.first_dim) / ilog2(self.dim) + 1;
-
-        let rgsws_count = (dimensions - 1) * self.dim;
+        let rgsws_count = self.no_of_cts() - self.first_dim;
         let mut rgsws = vec![];
         let mut vals = vec![];
         for i in 1..query_cts.len() {
-- 
2.43.0


From e77d8caeef4a073da5703953481aa1f10df628f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:19 +0000
Subject: [PATCH 10/21] fix: refuse products of operands with different
 parameters

---
 src/bfv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index d6b8389..3597844 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -491,6 +491,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
     type Output = BfvCipherText;
 
     fn mul(self, rhs: &BfvCipherText) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(rhs.level == self.level);
 
         let mul_params = self.params.mul_params[self.level].clone();
@@ -532,6 +533,7 @@ impl Mul<&BfvCipherText> for &BfvCipherText {
 impl Mul<&Plaintext> for &BfvCipherText {
     type Output = BfvCipherText;
     fn mul(self, rhs: &Plaintext) -> Self::Output {
+        assert!(self.params == rhs.params);
         assert!(self.level == rhs.level);
 
         // TODO: store this in BfvPlaintext
-- 
2.43.0


From 5610ee2da8d6a18eee8ffecc4bb238d92b4437c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:44 +0000
Subject: [PATCH 11/21] fix: refuse a database size that contradicts the
 query's shape

---
 src/evaluations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 702754a..82ac170 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -45,7 +45,7 @@ impl Client {
             .map(|i| (i == query_dims[0]).into())
             .collect();
 
-        assert!(((db_rows / self.first_dim) / self.dim.pow((query_dims.len() - 1) as u32)) == 1);
+        assert!(db_rows == self.first_dim * self.dim.pow((query_dims.len() - 1) as u32));
 
         // final length of `rgsws` = garner.len() * self.dim * (query_dims - 1)
         let mut rgsws: Vec<u64> = vec![];
-- 
2.43.0


From a22198866353c768d8553974828f69e4b2942fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 12/21] fix: refuse a database that does not fill the hypercube

Server::new accepted any number of records; decode then answered with
several ciphertexts, or with one that mixes records.
---
 src/evaluations.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 82ac170..13a65f1 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -76,6 +76,15 @@ impl Server {
         db: &Vec<Plaintext>,
         params: &Arc<BfvParameters>,
     ) -> Self {
+        // the database must fill the hypercube: first_dim * dim^k records
+        let mut rows = db.len() / first_dim;
+        assert!(rows * first_dim == db.len());
+        while rows > 1 {
+            assert!(dim > 1 && rows % dim == 0);
+            rows /= dim;
+        }
+        assert!(rows == 1);
+
         let db_scaled = db
             .iter()
             .map(|p| {
-- 
2.43.0


From e070e3ce79812fd2a2f0a50040e796881b9f4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 13/21] fix: refuse RGSW assembly from parts that do not match

A wrong number of ciphertexts, ciphertexts of another level or halves of
another ring were assembled into a key that multiplies wrongly.
---
 src/ksk.rs  | 5 ++++-
 src/rgsw.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ksk.rs b/src/ksk.rs
index 8397288..f5427e8 100644
--- a/src/ksk.rs
+++ b/src/ksk.rs
@@ -128,12 +128,15 @@ impl Ksk {
         params: &Arc<BfvParameters>,
         cts: &Vec<BfvCipherText>,
     ) -> Self {
-        // assert!(params.rq_context.moduli.len() == cts.len());
+        assert!(params.q_ctxs[0].moduli.len() == cts.len());
 
         let c0 = cts
             .iter()
             .map(|c| {
                 assert!(&c.params == params);
+                // the key is built at level 0
+                assert!(c.level == 0);
+                assert!(c.cts.len() == 2);
                 c.cts[0].clone()
             })
             .collect();
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 5445ad7..2bfe783 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -78,6 +78,10 @@ impl RgswCt {
     }
 
     pub fn try_from_ksks(ksk0: &Ksk, ksk1: &Ksk) -> Self {
+        assert!(ksk0.params == ksk1.params);
+        assert!(ksk0.ct_context == ksk1.ct_context);
+        assert!(ksk0.ksk_context == ksk1.ksk_context);
+
         Self {
             ksk0: ksk0.clone(),
             ksk1: ksk1.clone(),
-- 
2.43.0


From 862205aa4b958382c1df196a2305f6935eb6d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:37 +0000
Subject: [PATCH 14/21] fix: refuse ciphertexts with more than two components
 where the rest would be dropped

GaliosKey::relinearize and RgswCt::external_product ignored all components
beyond the second and returned garbage.
---
 src/bfv.rs  | 2 ++
 src/rgsw.rs | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 3597844..3618700 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -733,6 +733,8 @@ impl GaliosKey {
 
     pub fn relinearize(&self, ct: &BfvCipherText) -> BfvCipherText {
         assert!(ct.level == self.galios_level);
+        // a ciphertext with more components must be relinearized first
+        assert!(ct.cts.len() == 2);
 
         debug_assert!(ct.cts[0].representation == Representation::Ntt);
 
diff --git a/src/rgsw.rs b/src/rgsw.rs
index 2bfe783..87819c7 100644
--- a/src/rgsw.rs
+++ b/src/rgsw.rs
@@ -61,6 +61,9 @@ impl RgswCt {
     }
 
     pub fn external_product(rgsw: &RgswCt, bfv: &BfvCipherText) -> (Poly, Poly) {
+        // a ciphertext with more components must be relinearized first
+        assert!(bfv.cts.len() == 2);
+
         let mut c1 = bfv.cts[1].clone();
         let mut c0 = bfv.cts[0].clone();
         c1.change_representation(Representation::PowerBasis);
-- 
2.43.0


From 2bb686e5f049a5cbe36f04f376303e9b3f01010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:23 +0000
Subject: [PATCH 15/21] fix: refuse to encrypt or decrypt what belongs to other
 parameters

---
 src/bfv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index 3618700..bea71c6 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -329,6 +329,7 @@ impl SecretKey {
     }
 
     pub fn encrypt(&self, pt: &Plaintext) -> BfvCipherText {
+        assert!(self.params == pt.params);
         let poly = pt.to_poly();
         self.encrypt_poly(&poly)
     }
@@ -345,6 +346,7 @@ impl SecretKey {
     }
 
     pub fn decrypt(&self, ct: &BfvCipherText) -> Plaintext {
+        assert!(self.params == ct.params);
         let mut sk = Poly::try_from_vec_i64(&ct.cts[0].context, &self.coeffs);
         sk.change_representation(Representation::Ntt);
 
-- 
2.43.0


From 59bbde4dce88a353b9a622555597b75cd18ebd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 16/21] fix: refuse queries and records of other parameters in
 the server

---
 src/evaluations.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/evaluations.rs b/src/evaluations.rs
index 13a65f1..983f9b9 100644
--- a/src/evaluations.rs
+++ b/src/evaluations.rs
@@ -84,6 +84,7 @@ impl Server {
             rows /= dim;
         }
         assert!(rows == 1);
+        assert!(db.iter().all(|p| p.params == *params));
 
         let db_scaled = db
             .iter()
@@ -122,6 +123,7 @@ impl Server {
         params: &Arc<BfvParameters>,
     ) -> Vec<BfvCipherText> {
         assert!(params.q_ctxs[0].moduli.len() + 1 == query_cts.len());
+        assert!(query_cts.iter().all(|ct| ct.params == *params));
 
         let mut first_dim_cts = eval_key.unpack(query_cts[0].clone());
         first_dim_cts = first_dim_cts.as_slice()[..self.first_dim].to_vec();
-- 
2.43.0


From 1cd8cd6f68f221726184697b11cdfe173f1c07ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:23 +0000
Subject: [PATCH 17/21] fix: refuse messages with more values than there are
 places for

---
 src/bfv.rs | 1 +
 src/pvw.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index bea71c6..a0053a2 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -602,6 +602,7 @@ impl Plaintext {
         match encoding {
             Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(values),
             Encoding::SIMD => {
+                assert!(values.len() == params.degree);
                 for i in 0..params.degree {
                     encoded_vals[params.matrix_reps_index_map[i]] = values[i];
                 }
diff --git a/src/pvw.rs b/src/pvw.rs
index 1b77e6a..e05ff2c 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -118,6 +118,7 @@ pub struct PvwPk(Vec<PvwCiphertext>);
 
 impl PvwPk {
     pub fn encrypt(&self, params: &PvwParams, m: Vec<u64>) -> PvwCiphertext {
+        assert!(m.len() <= params.ell);
         let pk = self.0.clone();
         let q_mod = Modulus::new(params.q);
         let rng = thread_rng();
-- 
2.43.0


From 4be31b1a3940b674860f0a6e97df067dc3666a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:19 +0000
Subject: [PATCH 18/21] fix: refuse ciphertext moduli not beyond the plaintext
 modulus

---
 src/bfv.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bfv.rs b/src/bfv.rs
index a0053a2..e25ddb8 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -50,6 +50,9 @@ impl BfvParameters {
         variance: usize,
         bit_decomp: BitDecomposition,
     ) -> Self {
+        // the scaling by q/t needs every modulus to be beyond the plaintext modulus
+        assert!(ciphertext_moduli.iter().all(|q| *q > plaintext_modulus_u64));
+
         // We need n+1 moduli of 62 bits for multiplication
         let mut extended_basis_moduli = vec![];
         let mut upper_bound = 1 << 62;
-- 
2.43.0


From e3846ac06fbdc2cd3f3ee28c52edc0a46cfa1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 19/21] fix: plaintext values beyond the plaintext modulus are
 taken modulo it

---
 src/bfv.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index e25ddb8..bf8f142 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -600,10 +600,16 @@ impl Plaintext {
         level: usize,
         encoding: Encoding,
     ) -> Self {
+        // coefficients and slots are integers modulo the plaintext modulus
+        let values = values
+            .iter()
+            .map(|v| v % params.plaintext_modulus_u64)
+            .collect_vec();
+
         // encode the values
         let mut encoded_vals = vec![0u64; params.degree];
         match encoding {
-            Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(values),
+            Encoding::Poly => encoded_vals.as_mut_slice()[..values.len()].copy_from_slice(&values),
             Encoding::SIMD => {
                 assert!(values.len() == params.degree);
                 for i in 0..params.degree {
-- 
2.43.0


From 250b06266a1f28609c707ea85f2cbeee715eea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:58 +0000
Subject: [PATCH 20/21] fix: PVW clues take bits only

---
 src/pvw.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pvw.rs b/src/pvw.rs
index e05ff2c..9b10e03 100644
--- a/src/pvw.rs
+++ b/src/pvw.rs
@@ -119,6 +119,7 @@ pub struct PvwPk(Vec<PvwCiphertext>);
 impl PvwPk {
     pub fn encrypt(&self, params: &PvwParams, m: Vec<u64>) -> PvwCiphertext {
         assert!(m.len() <= params.ell);
+        assert!(m.iter().all(|bit| *bit < 2));
         let pk = self.0.clone();
         let q_mod = Modulus::new(params.q);
         let rng = thread_rng();
-- 
2.43.0


From e5ababb9b1021354dcb97ff93fbb92f1b58357e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:52 +0000
Subject: [PATCH 21/21] fix: decryption with a first modulus less than one and
 a half times the plaintext modulus

---
 src/bfv.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bfv.rs b/src/bfv.rs
index bf8f142..bf4532d 100644
--- a/src/bfv.rs
+++ b/src/bfv.rs
@@ -367,15 +367,21 @@ impl SecretKey {
         // is any of ct moduli.
         // i.e. [(t/q)* m ]_r where `r` is one of the `qi`s.
         m = self.params.scalars[ct.level].scale(&m);
+        // residues beyond half of `r` stand for negative values
+        let r = self.params.pt_ctx.moduli[0].p;
         let mut m: Vec<u64> = m
             .coefficients()
             .index_axis(Axis(0), 0)
             .iter()
-            .map(|a| *a + self.params.plaintext_modulus_u64)
+            .map(|a| {
+                if *a > r / 2 {
+                    *a + self.params.plaintext_modulus_u64 - r
+                } else {
+                    *a
+                }
+            })
             .collect();
         m = m[..self.params.degree].to_vec();
-        let q = self.params.q_ctxs[ct.level].moduli[0].clone();
-        m = q.reduce_vec_u64(&m);
         m = Modulus::new(self.params.plaintext_modulus_u64).reduce_vec_u64(&m);
 
         Plaintext {
-- 
2.43.0

