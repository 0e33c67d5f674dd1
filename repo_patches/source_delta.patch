From 335d16af3f835c721027a275abb35da50992e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 01/14] fix: return an error for a silent payment code without
 data part

A valid bech32m string with an empty data part made SilentPaymentCode::try_from
panic on an out of bounds index.
---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From ea2125f09b756d4260eaed977b636c856f918210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:28 +0000
Subject: [PATCH 02/14] fix: don't panic on a control block shorter than 33
 bytes in tag_txin

---
 silentpayments/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..5fbeebc 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,7 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| control_block.get(1..33) == Some(&NUMS_H[..]))
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From 023a0ba5b1abe73546d5e638d95a70df83576c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 03/14] fix: only apply the taproot tweak to taproot inputs in
 XprivSilentPaymentSender

---
 silentpayments/src/send/bip32.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..23d2375 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -36,6 +36,13 @@ impl XprivSilentPaymentSender {
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
             let mut internal_privkey = bip32_privkey.private_key;
+
+            // Only taproot outputs are locked to the tweaked key
+            if !spk.is_p2tr() {
+                spks_with_keys.push((spk.clone(), internal_privkey));
+                continue;
+            }
+
             let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
 
             if let Parity::Odd = parity {
-- 
2.43.0


From 627a0a77a0f1b9f5989d1ebb09d03c6002b43427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 04/14] fix: keep the final script_sig of nested segwit psbt
 inputs

An input finalized with both a witness and a script_sig lost its script_sig, so
a P2SH-P2WPKH input was never recognised and its key silently left out of the
shared secret.
---
 silentpayments/src/send/psbt/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..c9c39f7 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,16 +327,18 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
+    let mut full_txin = txin.clone();
+
     if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
+        full_txin.witness = witness.clone();
+        // Nested segwit inputs are finalized with both a witness and a script_sig
+        if let Some(ref script_sig) = psbt_input.final_script_sig {
+            full_txin.script_sig = script_sig.clone();
+        }
+        Ok(full_txin)
     } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
+        full_txin.script_sig = script_sig.clone();
+        Ok(full_txin)
     } else {
         Err(SpSendError::MissingWitness)
     }
-- 
2.43.0


From b6f4f1344d4d12c93a45314cb0c58c2577c01563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 05/14] fix: check that the key of a non taproot psbt input
 matches the input

The taproot path already rejects a key which doesn't match the output being
spent. Do the same for the other input types: a wrong key derives outputs the
recipient can't find.
---
 silentpayments/src/send/psbt/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index c9c39f7..b76301b 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -257,8 +257,17 @@ where
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
+                    (_, pubkey) => match get_non_taproot_secret(psbt_input, k, secp) {
+                        Ok(Some(secret)) => {
+                            if pubkey == secret.public_key(secp) {
+                                Ok(Some(secret))
+                            } else {
+                                Err(SpSendError::KeyError)
+                            }
+                        }
+                        Ok(None) => Ok(None),
+                        Err(_) => Err(SpSendError::KeyError),
+                    },
                 })
                 .transpose()?
                 .flatten()
-- 
2.43.0


From f61f7ee1976bd6c01591100490e7fc0e8eb7a3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:03 +0000
Subject: [PATCH 06/14] fix: fail derive_sp when the key of an eligible input
 is missing

An input eligible for shared secret derivation whose key was not available got
silently left out of the sum, so the derived outputs couldn't be found by the
recipients.
---
 silentpayments/src/send/psbt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index b76301b..64bb753 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -253,7 +253,7 @@ where
                                     Err(SpSendError::KeyError)
                                 }
                             }
-                            Ok(None) => Ok(None),
+                            Ok(None) => Err(SpSendError::MissingInputsForSharedSecretDerivation),
                             Err(_) => Err(SpSendError::KeyError),
                         }
                     }
@@ -265,7 +265,7 @@ where
                                 Err(SpSendError::KeyError)
                             }
                         }
-                        Ok(None) => Ok(None),
+                        Ok(None) => Err(SpSendError::MissingInputsForSharedSecretDerivation),
                         Err(_) => Err(SpSendError::KeyError),
                     },
                 })
-- 
2.43.0


From 9e06566992e1db50147ba8a1969f3bd6a6e4da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 07/14] fix: leave the psbt outputs untouched when
 update_outputs fails

A failed derivation left the outputs of some recipients already replaced.
---
 silentpayments/src/send/psbt/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 64bb753..2298ad5 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -544,6 +544,9 @@ fn update_outputs(
         map
     };
 
+    // Replace the script pubkeys once all the recipients are known to match their placeholders
+    let mut replacements = <Vec<(usize, ScriptBuf)>>::new();
+
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -554,17 +557,21 @@ fn update_outputs(
                 Ordering::Equal => {
                     for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
                         let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
+                        replacements.push((*idx, ScriptBuf::new_p2tr_tweaked(x_only_tweaked)));
                     }
                 }
             }
         }
     }
 
+    for (idx, script_pubkey) in replacements {
+        let value = psbt.unsigned_tx.output[idx].value;
+
+        psbt.unsigned_tx.output[idx] = TxOut {
+            script_pubkey,
+            value,
+        };
+    }
+
     Ok(())
 }
-- 
2.43.0


From 1212f0b52754e6c34bdf0dcc6002b7d674108136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 08/14] fix: accept inputs whose keys have a zero partial sum

Only a zero total is invalid. The receiver already handles those transactions.
---
 silentpayments/src/send/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..ab55e82 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -45,12 +45,16 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
-    for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+    // None stands for a sum of zero: only the total has to be a valid secret key, as partial sums
+    // can be zero
+    let mut maybe_a_sum = <Option<SecretKey>>::None;
+    for sk in available_keys {
+        maybe_a_sum = match maybe_a_sum {
+            Some(sum) => sum.add_tweak(&Scalar::from(sk)).ok(),
+            None => Some(sk),
+        };
     }
+    let a_sum = maybe_a_sum.ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From 2d4e7bae392311b7e80da8c521e1bd6a23145f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 09/14] fix: don't panic in SpIndexer on transactions without
 eligible inputs

---
 indexer/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..6d23b2a 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,10 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // Without a shared secret (i.e. there are no eligible inputs) it can't be a silent payment
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From 6ad3bfb3d6e60b2c2676e9694d26469782dbc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 10/14] fix: consider the keys in the is_empty of the v2
 ChangeSet

A changeset holding only the scan and spend keys was reported as empty, so it
could be dropped instead of persisted.
---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..384199c 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -437,7 +437,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From e215c40fb0eed577cf3efdc1da207a8e08ac37e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:26 +0000
Subject: [PATCH 11/14] fix: deserialize labels from human readable formats

A label serialized as json couldn't be read back.
---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..8754553 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Human readable formats have no native representation for bytes
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (idx, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(idx, &self))?;
+                }
+                match seq.next_element::<u8>()? {
+                    Some(_) => Err(de::Error::invalid_length(33, &self)),
+                    None => Ok(arr),
+                }
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From 05d93d937a28fdced505ce945f6750bdc4a15953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 12/14] fix: keep the latest filter of a height in
 DatabaseBuffer

IndexedFilter is ordered by height only, so inserting the filter of a block
which replaces a still queued one was a no-op and the stale filter was stored.
---
 oracles/src/filters/kyoto.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..120b516 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,8 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // Filters compare by height only: after a reorg the latest one has to win
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From c19da3e3711f0f28d29e792582b77d15952002df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 13/14] fix: don't panic on malformed silent payment fields in
 a psbt

Proprietary fields come from whoever handed over the psbt.
---
 silentpayments/src/send/psbt/mod.rs  | 32 +++++++---------
 silentpayments/src/send/psbt/sign.rs | 56 +++++++++++++++++++---------
 2 files changed, 53 insertions(+), 35 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 2298ad5..949644c 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -16,9 +16,6 @@ use bitcoin::{
     PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
 };
 
-#[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::{PublicKey, Scalar};
-
 use std::{
     cmp::Ordering,
     collections::{BTreeMap, HashMap},
@@ -374,20 +371,18 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
-                continue;
+            let (spend_pk, tweak) = match sign::parse_sp_data(&key.key, &value) {
+                Some(sp_data) => sp_data,
+                None => continue,
+            };
+            let output_key = match psbt_input.witness_utxo.as_ref().and_then(sign::output_key) {
+                Some(output_key) => output_key,
+                None => continue,
+            };
+            let tweaked_spend_pk = match spend_pk.add_exp_tweak(secp, &tweak) {
+                Ok(tweaked_spend_pk) => tweaked_spend_pk,
+                Err(_) => continue,
             };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
             let spend_sk = if let Ok(Some(sk)) =
                 k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
             {
@@ -396,8 +391,9 @@ where
                 continue;
             };
             if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
-                return Ok(Some(sk));
+                if let Ok(sk) = spend_sk.inner.add_tweak(&tweak) {
+                    return Ok(Some(sk));
+                }
             }
         }
     }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..adfcffa 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -29,6 +29,22 @@ pub fn add_sp_data_to_input(
     }
 }
 
+/// Parses the spend public key and the tweak of a `bip352` proprietary field, if well formed.
+pub(crate) fn parse_sp_data(key: &[u8], value: &[u8]) -> Option<(PublicKey, Scalar)> {
+    let spend_pk = PublicKey::from_slice(key).ok()?;
+    let tweak = Scalar::from_be_bytes(value.try_into().ok()?).ok()?;
+    Some((spend_pk, tweak))
+}
+
+/// The output key of a p2tr output.
+pub(crate) fn output_key(txout: &TxOut) -> Option<XOnlyPublicKey> {
+    if txout.script_pubkey.is_p2tr() {
+        XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..]).ok()
+    } else {
+        None
+    }
+}
+
 pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
 where
     C: Signing + Verification,
@@ -40,20 +56,18 @@ where
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
-                    continue;
+                let (spend_pk, tweak) = match parse_sp_data(&key.key, &value) {
+                    Some(sp_data) => sp_data,
+                    None => continue,
+                };
+                let output_key = match psbt.inputs[i].witness_utxo.as_ref().and_then(output_key) {
+                    Some(output_key) => output_key,
+                    None => continue,
+                };
+                let tweaked_spend_pk = match spend_pk.add_exp_tweak(secp, &tweak) {
+                    Ok(tweaked_spend_pk) => tweaked_spend_pk,
+                    Err(_) => continue,
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
                 let spend_sk = if let Ok(Some(sk)) =
                     k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
                 {
@@ -65,11 +79,16 @@ where
                     && tweaked_spend_pk.x_only_public_key().0 == output_key
                 {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
+                    // The signature commits to all the prevouts
+                    let prevouts = match psbt
                         .inputs
                         .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
+                        .map(|x| x.witness_utxo.clone())
+                        .collect::<Option<Vec<TxOut>>>()
+                    {
+                        Some(prevouts) => prevouts,
+                        None => continue,
+                    };
                     let prevouts = Prevouts::All(&prevouts);
 
                     let sighash = cache
@@ -79,7 +98,10 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+                    let sk = match spend_sk.inner.add_tweak(&tweak) {
+                        Ok(sk) => sk,
+                        Err(_) => continue,
+                    };
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From 9c798bff0f8db557cce3093519888797bd6bc5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:36 +0000
Subject: [PATCH 14/14] fix: report a closed channel instead of panicking in
 the filter subscriber

The consumer can go away between the two messages a sync sends.
---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index 120b516..7fc4588 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -98,7 +98,9 @@ impl FilterSubscriber {
                         height: tip.height,
                         hash: tip.hash,
                     };
-                    self.sender.send(FilterEvent::Tip(tip)).unwrap();
+                    if self.sender.send(FilterEvent::Tip(tip)).is_err() {
+                        return Err(UpdateError::ChannelClosed);
+                    }
                 }
                 Event::IndexedFilter(filter) => {
                     if filter.height() < self.birthday {
-- 
2.43.0

