From 527d6add9a8cd61738f40ff09c4027a491ad478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 01/14] fix: check the value against the given bound in
 SecretSigned::new_positive

The constructor accepted any value with the most significant bit unset and
attached a bound the value did not fit in.
---
 src/uint/secret_signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..5ddbcb0 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -36,7 +36,7 @@ where
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From bd347ad6403000c1d6ded1df8adbafbea652ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 02/14] fix: reject parameter proofs with a wrong number of
 rounds

PrmProof::verify() zips challenge bits, responses and commitments, so a proof
with fewer (or no) commitments or responses skipped the corresponding checks.
---
 src/zk/prm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..5db4bb1 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,11 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        // The number of rounds must match the number of challenge bits, otherwise some rounds will not be checked.
+        if self.commitment.0.len() != challenge.0.bits().len() || self.proof.len() != challenge.0.bits().len() {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 19505b1cde6b36f4df53434565a2e82d9959ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 03/14] fix: reject modulus proofs with a wrong number of
 responses

ModProof::verify() zips challenges and responses, so a proof with fewer (or no)
responses skipped the corresponding checks.
---
 src/zk/mod_.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..bdfb191 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,11 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        // Every challenge must be answered.
+        if self.proof.len() != challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
-- 
2.43.0


From dd21f0bc5b6ae94ddf42a14a498bd773f33e1dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 04/14] fix: allow evaluating a public polynomial with one
 coefficient

The assertion rejected a sharing with the threshold of 1, although its message
and Polynomial::evaluate() only require a non-empty list.
---
 src/tools/sss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..c3e8783 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
-- 
2.43.0


From 40dd234f927ed5bbf26ec0d9c340104245ac4d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 05/14] fix: do not panic on a zero scalar derived from a hash
 in debug builds

The reduced value can be zero, and nothing rejects it before the assertion.
---
 src/curve/arithmetic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..e482e1d 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -103,7 +103,7 @@ impl<P: SchemeParams> Scalar<P> {
             NonZero::new(<P::Curve as Curve>::Uint::ZERO.concat(&P::Curve::ORDER)).expect("ORDER is non-zero");
         let wide_reduced = wide_uint.rem(wide_order);
         let (_, reduced) = wide_reduced.split();
-        debug_assert!(reduced < P::Curve::ORDER && reduced != <P::Curve as Curve>::Uint::ZERO);
+        debug_assert!(reduced < P::Curve::ORDER);
         let scalar = BackendScalar::<P>::from_uint_unchecked(reduced);
         Self(scalar)
     }
-- 
2.43.0


From 7fbb8a435e656ec757703a597038d65be37295d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:00 +0000
Subject: [PATCH 06/14] fix: reject the identity point on deserialization

Its encoding (a single zero byte) was accepted, but such a point panics when it
is hashed or serialized, so a received message could crash its recipient.
---
 src/curve/arithmetic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index e482e1d..cb64a36 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -271,6 +271,9 @@ where
         let cp_opt: Option<_> = <<P::Curve as CurveArithmetic>::ProjectivePoint>::from_encoded_point(&ep).into();
         cp_opt
             .map(Self)
+            // The identity does not have a compressed representation of the fixed size,
+            // so a `Point` equal to it cannot be serialized or hashed.
+            .filter(|point| point != &Self::identity())
             .ok_or_else(|| "Invalid curve point representation".into())
     }
 
-- 
2.43.0


From 82efbca1ec36c777850f5df081920c690b313733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 07/14] fix: invertible residues derived from a hash lie below
 the modulus

---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..dcb3c1e 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(self.modulus()) {
                 return r;
             }
         }
-- 
2.43.0


From 51b585aef448f780e21822560c860d16bc7680c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:19 +0000
Subject: [PATCH 08/14] fix: reject uncompressed and compact encodings of
 points

---
 src/curve/arithmetic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index cb64a36..aa92d22 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -267,6 +267,11 @@ where
     pub(crate) fn try_from_compressed_bytes(bytes: &[u8]) -> Result<Self, String> {
         let ep = EncodedPoint::<P::Curve>::from_bytes(bytes).map_err(|err| format!("{err}"))?;
 
+        // SEC1 also has uncompressed and compact encodings of a point, which we never produce.
+        if !ep.is_compressed() {
+            return Err("Not a compressed representation of a curve point".into());
+        }
+
         // Unwrap CtOption into Option
         let cp_opt: Option<_> = <<P::Curve as CurveArithmetic>::ProjectivePoint>::from_encoded_point(&ep).into();
         cp_opt
-- 
2.43.0


From ab12a749c595b8ba602e1cc2c1caa682c19df1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:38 +0000
Subject: [PATCH 09/14] fix: reject even moduli on deserialization

A modulus received from another party is converted to the precomputed form before anything
about it is checked, and an even one panicked there.
---
 src/paillier/rsa.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index dcb3c1e..a7095be 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -5,14 +5,14 @@ use crypto_primes::{
 };
 use digest::XofReader;
 use rand_core::CryptoRngCore;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 use super::params::PaillierParams;
 use crate::{
     tools::Secret,
     uint::{
-        Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned, SecretUnsigned,
-        ToMontgomery,
+        BoxedEncoding, Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned,
+        SecretUnsigned, ToMontgomery,
     },
 };
 
@@ -227,7 +227,22 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
-pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
+pub(crate) struct PublicModulusWire<P: PaillierParams>(
+    // An even modulus does not have the corresponding Montgomery parameters.
+    #[serde(deserialize_with = "deserialize_odd")] PublicUint<P::Uint>,
+);
+
+fn deserialize_odd<'de, T, D>(deserializer: D) -> Result<PublicUint<T>, D::Error>
+where
+    T: BoxedEncoding + Integer,
+    D: Deserializer<'de>,
+{
+    let value = PublicUint::<T>::deserialize(deserializer)?;
+    if value.is_even().into() {
+        return Err(D::Error::custom("The modulus must be odd"));
+    }
+    Ok(value)
+}
 
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
-- 
2.43.0


From 87e5faff04edcfffb4bf394e2d25d8b26aab8db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:35 +0000
Subject: [PATCH 10/14] fix: verify the evidence for encryption proofs with the
 parameters of the reporting party

The proofs in Round 1 are made for the recipient, but the evidence was verified with the parameters
of the accused party, so any valid message made acceptable evidence against its sender.
---
 src/protocols/interactive_signing.rs | 42 ++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..137a59a 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -135,8 +135,8 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
             f,
             "{}",
             match self.error {
-                Error::R1EncElg0Failed => "Round 1: failed to verify `\\psi^0` (`П^{enc-elg}` proof).",
-                Error::R1EncElg1Failed => "Round 1: failed to verify `\\psi^1` (`П^{enc-elg}` proof).",
+                Error::R1EncElg0Failed { .. } => "Round 1: failed to verify `\\psi^0` (`П^{enc-elg}` proof).",
+                Error::R1EncElg1Failed { .. } => "Round 1: failed to verify `\\psi^1` (`П^{enc-elg}` proof).",
                 Error::R2WrongIdsD => "Round 2: wrong IDs in `D` map.",
                 Error::R2WrongIdsF => "Round 2: wrong IDs in `F` map.",
                 Error::R2WrongIdsPsi => "Round 2: wrong IDs in `\\psi` map (`П^{aff-g}` proofs for `D`).",
@@ -160,8 +160,14 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
 /// Possible verifiable errors of the InteractiveSigning protocol.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 enum Error<Id> {
-    R1EncElg0Failed,
-    R1EncElg1Failed,
+    R1EncElg0Failed {
+        /// The index $i$ of the node that produced the evidence.
+        reported_by: Id,
+    },
+    R1EncElg1Failed {
+        /// The index $i$ of the node that produced the evidence.
+        reported_by: Id,
+    },
     R2WrongIdsD,
     R2WrongIdsF,
     R2WrongIdsPsi,
@@ -265,10 +271,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
     fn required_messages(&self) -> RequiredMessages {
         match self.error {
-            Error::R1EncElg0Failed => {
+            Error::R1EncElg0Failed { .. } => {
                 RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
             }
-            Error::R1EncElg1Failed => {
+            Error::R1EncElg1Failed { .. } => {
                 RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
             }
             Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
@@ -363,13 +369,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
         let epid = Epid::new::<P, Id>(shared_randomness, associated_data);
 
         match &self.error {
-            Error::R1EncElg0Failed => {
+            Error::R1EncElg0Failed { reported_by } => {
                 let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                let reporter_aux = &associated_data.aux.as_map().try_get("aux infos", reported_by)?;
+                let rp = reporter_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -385,13 +392,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     &aux,
                 ))
             }
-            Error::R1EncElg1Failed => {
+            Error::R1EncElg1Failed { reported_by } => {
                 let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                let reporter_aux = &associated_data.aux.as_map().try_get("aux infos", reported_by)?;
+                let rp = reporter_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -1235,7 +1243,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
             &public_aux.rp_params,
             &aux,
         ) {
-            return Err(ReceiveError::protocol(Error::R1EncElg0Failed.into()));
+            return Err(ReceiveError::protocol(
+                Error::R1EncElg0Failed {
+                    reported_by: self.context.my_id.clone(),
+                }
+                .into(),
+            ));
         }
 
         if !direct_message.psi1.verify(
@@ -1249,7 +1262,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
             &public_aux.rp_params,
             &aux,
         ) {
-            return Err(ReceiveError::protocol(Error::R1EncElg1Failed.into()));
+            return Err(ReceiveError::protocol(
+                Error::R1EncElg1Failed {
+                    reported_by: self.context.my_id.clone(),
+                }
+                .into(),
+            ));
         }
 
         Ok(Payload::new(Round1Payload::<P> {
-- 
2.43.0


From 317b6881228709fd1ef676807fb4287a6a0403be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 11/14] fix: verify the evidence for `\hat{psi}` proofs with
 the share of the accused party

The proofs are about the share of the sender, but the evidence was verified with the share
of the party the proof is for, so any valid message made acceptable evidence against its sender.
---
 src/protocols/interactive_signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 137a59a..6df9ccf 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -502,7 +502,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
-- 
2.43.0


From f3ba79363756fafc6c10277e158d051b4a4a5061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 12/14] fix: verify the evidence for Round 3 proofs with the
 combined nonce

The proofs are made for the sum of the contributions of all parties, but the evidence was verified
with the contribution of the accused party, so any valid message made acceptable evidence against its sender.
---
 src/protocols/interactive_signing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 6df9ccf..a2b8f31 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -304,7 +304,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -570,9 +570,13 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(2)?
                     .echo_broadcast
                     .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r3_nb = message
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
+                let cap_gamma = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
                 let aux = (&epid, guilty_party);
 
                 verify_that(!r3_nb.psi_prime.verify(
@@ -581,7 +585,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &cap_gamma,
                     },
                     &aux,
                 ))
-- 
2.43.0


From 0bdb6c027210bcdd117bb191b93d5887388a3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 13/14] fix: check the IDs in all maps of a Round 2 message

The IDs in `\hat{D}`, `\hat{F}` and `\hat{\psi}` were not checked, so a message without some of them
led to an error that could not be attributed to its sender.
---
 src/protocols/interactive_signing.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index a2b8f31..819e016 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -425,7 +425,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsF => {
                 let r2_eb = message
@@ -437,7 +440,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsPsi => {
                 let r2_nb = message
@@ -449,7 +455,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
@@ -1579,15 +1588,21 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
 
         let expected_ids = self.context.all_ids.clone().without(from);
 
-        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsD.into()));
         }
 
-        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsF.into()));
         }
 
-        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
-- 
2.43.0


From 7cd934ca40c84c558996d14a1546e4e705e59134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:18 +0000
Subject: [PATCH 14/14] fix: a bit vector of another length sent by a
 participant made every receiver panic

The random bits a participant contributes to the session identifier (`rho`, `rid`) are combined by xor, which asserted
that the lengths are equal; the length is chosen by the sender and never checked. Extend the shorter one with zeros.
---
 src/tools/bitvec.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/bitvec.rs b/src/tools/bitvec.rs
index 2484b7e..485bcc6 100644
--- a/src/tools/bitvec.rs
+++ b/src/tools/bitvec.rs
@@ -90,9 +90,10 @@ impl BitVec {
 
 impl BitXorAssign<&BitVec> for BitVec {
     fn bitxor_assign(&mut self, rhs: &BitVec) {
-        assert!(self.0.len() == rhs.0.len());
-        for (lhs, rhs) in self.0.iter_mut().zip(rhs.0.iter()) {
-            *lhs ^= rhs
-        }
+        // The lengths of bit vectors received from other nodes are not under our control;
+        // the shorter one is treated as if it was extended with zeros.
+        let len = self.0.len().max(rhs.0.len());
+        let bit = |bits: &[bool], i: usize| bits.get(i).copied().unwrap_or(false);
+        self.0 = (0..len).map(|i| bit(&self.0, i) ^ bit(&rhs.0, i)).collect();
     }
 }
-- 
2.43.0

