From c4630ee09d738830ef8166713f5ce7f19a9cb433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 01/11] fix: reject secp256k1 signatures that do not verify

verify_hashed ignored the verdict of libsecp256k1::verify, so any well-formed
DER signature was accepted.
---
 keypair/src/secp256k1.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..672c872 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -171,8 +171,12 @@ impl PublicKey {
     pub fn verify_hashed(&self, msg: &[u8], sig: &[u8]) -> Result<(), VerificationError> {
         Message::parse_slice(msg)
             .and_then(|m| {
-                libsecp256k1::Signature::parse_der(sig)
-                    .map(|s| libsecp256k1::verify(&m, &s, &self.0))
+                let s = libsecp256k1::Signature::parse_der(sig)?;
+                if libsecp256k1::verify(&m, &s, &self.0) {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
             })
             .map_err(|e| {
                 VerificationError::Secp256k1(
@@ -181,7 +185,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From 92f181b29ffdc178088b6bc8b36e73eebb3f439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 02/11] fix: check the provenance of the timestamp in
 get_weight_from

The timestamp is the third argument; the tetraplet of the issuer was checked.
---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From b186aede0ee874ac612cf5d8610227565483323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 03/11] fix: honour revocations of the direct issuer

Revocations of every chain member but the first issuer were collected, so a
revocation of the peer that directly trusts the queried one was ignored.
---
 trust-graph/src/trust_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..5c61347 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,12 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            let issuer_revocations = self
+                .storage
+                .get_revocations(&auth.issued_by.clone().into())?;
+            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
+            chain.add_revocations(issuer_revocations);
+            chains_queue.push_back(chain);
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From e099447d17d486f0e1233349b009cbddb7eecaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 04/11] fix: let set_root replace the weight of a known root

The roots table has no unique key, so INSERT OR REPLACE appended a second row
and the first one kept being used.
---
 service/src/storage_impl.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..60ff480 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -298,17 +298,19 @@ impl Storage for SQLiteStorage {
         pk: PK,
         weight_factor: WeightFactor,
     ) -> Result<(), Self::Error> {
-        let mut cursor = self
-            .connection
-            .prepare("INSERT OR REPLACE INTO roots VALUES (?, ?)")?
-            .cursor();
-
-        cursor.bind(&[
-            Value::String(format!("{pk}")),
-            Value::Integer(i64::from(weight_factor)),
-        ])?;
+        let pk = Value::String(format!("{pk}"));
+        let weight_factor = Value::Integer(i64::from(weight_factor));
+
+        // `roots` has no unique key: replace the value of a known root, insert a new one otherwise
+        for query in [
+            "UPDATE roots SET weight_factor = ?2 WHERE public_key = ?1",
+            "INSERT INTO roots SELECT ?1, ?2 WHERE NOT EXISTS (SELECT 1 FROM roots WHERE public_key = ?1)",
+        ] {
+            let mut cursor = self.connection.prepare(query)?.cursor();
+            cursor.bind(&[pk.clone(), weight_factor.clone()])?;
+            cursor.next()?;
+        }
 
-        cursor.next()?;
         Ok(())
     }
 
-- 
2.43.0


From 886cdeb6a1aa5b31bddf3104bc1432e10b993799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 05/11] fix: keep trusts that expire after i64::MAX seconds

Expiration times are u64 stored as i64; the ones above i64::MAX became negative
and the trusts (self-signed root trusts among them) were removed as expired.
---
 service/src/storage_impl.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 60ff480..031fbf1 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -343,12 +343,16 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            .prepare(
+                // seconds are stored as i64, those above i64::MAX are negative
+                "DELETE FROM trust_relations WHERE relation_type = ?1 AND \
+             ((expires_at < 0) < (?2 < 0) OR ((expires_at < 0) = (?2 < 0) AND expires_at <= ?2))",
+            )?
             .cursor();
 
         cursor.bind(&[
-            Value::Integer(cur_time.as_secs() as i64),
             Value::Integer(AUTH_TYPE),
+            Value::Integer(cur_time.as_secs() as i64),
         ])?;
 
         cursor.next()?;
-- 
2.43.0


From 6fc99ca69e49e4a3e48bae31dd3f7eb08ddc959b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 06/11] fix: do not accept chains longer than their root allows

The maximum chain length was only enforced while trusts were added; a chain
that became too long by another path or by set_root still gave weight 1.
---
 trust-graph/src/trust_graph.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 5c61347..6cd2774 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -323,7 +323,15 @@ where
             let converges_to_root = roots.contains(issued_by);
 
             if self_signed && converges_to_root && cur_chain.auths.len() > 1 {
-                terminated_chains.push(cur_chain.auths.into());
+                let root_weight_factor = self
+                    .storage
+                    .get_root_weight_factor(issued_by)?
+                    .ok_or(NoRoot)?;
+
+                // - the chain must not be longer than its root allows
+                if root_weight_factor + cur_chain.auths.len() as u32 - 1 <= MAX_WEIGHT_FACTOR {
+                    terminated_chains.push(cur_chain.auths.into());
+                }
             }
         }
 
-- 
2.43.0


From ce976ec2a843663249ec72fe023e918d8c214546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:04 +0000
Subject: [PATCH 07/11] fix: decoding of an empty public key or signature is an
 error, not a panic

---
 keypair/src/public_key.rs | 2 +-
 keypair/src/signature.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..adff7d9 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,7 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..9949bf1 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,7 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        match KeyFormat::try_from(*bytes.first().ok_or(DecodingError::InvalidTypeByte)?)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From ab1ef2582ee313b1ba85ccc592672d197e22e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:28 +0000
Subject: [PATCH 08/11] fix: decoding a trust with trailing bytes is an error,
 not a panic

---
 trust-graph/src/trust.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..ff4715f 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -207,7 +207,11 @@ impl Trust {
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
         let issued_bytes = &arr[offset..];
-        let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
+        let issued_date = u64::from_le_bytes(
+            issued_bytes
+                .try_into()
+                .map_err(|_| DecodeErrorInvalidSize("issued".to_string()))?,
+        );
         let issued_date = Duration::from_secs(issued_date);
 
         Ok(Self {
-- 
2.43.0


From fc8f9a39c97ad5fc58c4937f1bf30d190bfd08de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:28 +0000
Subject: [PATCH 09/11] fix: parsing a certificate without its header lines is
 an error, not a panic

---
 trust-graph/src/certificate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..1e327a1 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,14 +310,14 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        if str_lines.len() < 2 || (str_lines.len() - 2) % 4 != 0 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
 
-        if (str_lines.len() - 2) % 4 != 0 {
-            return Err(IncorrectCertificateFormat(s.to_string()));
-        }
-
         let num_of_trusts = (str_lines.len() - 2) / 4;
         let mut trusts = Vec::with_capacity(num_of_trusts);
 
-- 
2.43.0


From 6f1095e248f1f19d0c0886e13accb7c4948f84c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:28 +0000
Subject: [PATCH 10/11] fix: extending a certificate with an empty chain is an
 error, not a panic

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 1e327a1..2168dc9 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0


From 4fa4e252fe3281e0c9af4eb3eb8d0c6e4fed64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:37 +0000
Subject: [PATCH 11/11] fix: let a serialised PublicKeyHashable be read back

It was written as bytes and read as a string, so self-describing formats
such as JSON refused what they had written.
---
 trust-graph/src/public_key_hashable.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..37ae051 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -94,7 +94,11 @@ impl serde::Serialize for PublicKeyHashable {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(&self.0.encode())
+        if serializer.is_human_readable() {
+            serializer.collect_str(self)
+        } else {
+            serializer.serialize_bytes(&self.0.encode())
+        }
     }
 }
 
@@ -137,6 +141,10 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
             }
         }
 
-        deserializer.deserialize_str(PKVisitor)
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_str(PKVisitor)
+        } else {
+            deserializer.deserialize_bytes(PKVisitor)
+        }
     }
 }
-- 
2.43.0

