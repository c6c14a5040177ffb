From e74bf09f2cce490cefc18173b742efd5dbde7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:51 +0000
Subject: [PATCH 01/17] fix: wipe |plaintext| when decryption stops because the
 output buffer is too small

---
 src/crypto/aes_gcm_crypter.cc             | 1 +
 src/crypto/chacha_poly_crypter_openssl.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..98bc239 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..7be0eba 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
-- 
2.43.0


From e2d38b93f3effdf5274ebb7fd4d96b4065e5986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 02/17] fix: reject a null component in the tag part of
 |ciphertext_and_tag|

---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 98bc239..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -385,6 +385,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 7be0eba..aef5eef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -391,6 +391,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From 225b476b778060b71fc9290fa488022bdeecafd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:29 +0000
Subject: [PATCH 03/17] fix: do not truncate AEAD component lengths that do not
 fit in an int

---
 src/crypto/aes_gcm_crypter.cc             | 24 +++++++++++++++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 24 +++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 1cca7f8..966bb4a 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -21,6 +21,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
+#include <limits>
 #include <memory>
 
 #include "absl/memory/memory.h"
@@ -110,6 +111,11 @@ static Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
       return Status(StatusCode::kInvalidArgument,
                     "Non-zero aad length but aad is nullptr.");
     }
+    // The SSL library takes lengths of type |int|.
+    if (vec.iov_len > std::numeric_limits<int>::max()) {
+      return Status(StatusCode::kInvalidArgument,
+                    "Aad component is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
@@ -140,6 +146,11 @@ static Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
       return Status(StatusCode::kInvalidArgument,
                     "Non-zero aad length but aad is nullptr.");
     }
+    // The SSL library takes lengths of type |int|.
+    if (vec.iov_len > std::numeric_limits<int>::max()) {
+      return Status(StatusCode::kInvalidArgument,
+                    "Aad component is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
@@ -209,6 +220,12 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
                                 GetSSLErrors())),
             /*bytes_written=*/0);
       }
+      // The SSL library takes lengths of type |int|.
+      if (vec.iov_len > std::numeric_limits<int>::max()) {
+        return CrypterStatus(Status(StatusCode::kInvalidArgument,
+                                    "|plaintext| component is too large."),
+                             /*bytes_written=*/0);
+      }
       int bytes_written = 0;
       if (!EVP_EncryptUpdate(ctx_.get(), ciphertext_ptr, &bytes_written,
                              static_cast<uint8_t*>(vec.iov_base),
@@ -342,6 +359,13 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
                 "|plaintext| is too small to hold the decrypted ciphertext."),
             /*bytes_written=*/0);
       }
+      // The SSL library takes lengths of type |int|.
+      if (bytes_to_write > std::numeric_limits<int>::max()) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(Status(StatusCode::kInvalidArgument,
+                                    "|ciphertext_and_tag| component is too large."),
+                             /*bytes_written=*/0);
+      }
       if (!EVP_DecryptUpdate(
               ctx_.get(), plaintext_ptr, reinterpret_cast<int*>(&bytes_written),
               ciphertext_ptr, static_cast<int>(bytes_to_write))) {
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index aef5eef..c0b29da 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -23,6 +23,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 
+#include <limits>
 #include <vector>
 
 #include "absl/memory/memory.h"
@@ -114,6 +115,11 @@ absl::Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
       return absl::Status(absl::StatusCode::kInvalidArgument,
                           "non-zero aad length but |aad| is nullptr.");
     }
+    // The SSL library takes lengths of type |int|.
+    if (vec.iov_len > std::numeric_limits<int>::max()) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "Aad component is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
@@ -144,6 +150,11 @@ absl::Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
       return absl::Status(absl::StatusCode::kInvalidArgument,
                           "non-zero aad length but |aad| is nullptr.");
     }
+    // The SSL library takes lengths of type |int|.
+    if (vec.iov_len > std::numeric_limits<int>::max()) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "Aad component is too large.");
+    }
 
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
@@ -219,6 +230,12 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
                                  GetSSLErrors())),
                              /*bytes_written=*/0);
       }
+      // The SSL library takes lengths of type |int|.
+      if (vec.iov_len > std::numeric_limits<int>::max()) {
+        return CrypterStatus(absl::InvalidArgumentError(
+                                 "|plaintext| component is too large."),
+                             /*bytes_written=*/0);
+      }
       int bytes_written = 0;
       if (!EVP_EncryptUpdate(ctx_.get(), ciphertext_ptr, &bytes_written,
                              static_cast<uint8_t*>(vec.iov_base),
@@ -348,6 +365,13 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
                 "|plaintext| is too small to hold the decrypted ciphertext."),
             /*bytes_written=*/0);
       }
+      // The SSL library takes lengths of type |int|.
+      if (bytes_to_write > std::numeric_limits<int>::max()) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(absl::InvalidArgumentError(
+                                 "|ciphertext_and_tag| component is too large."),
+                             /*bytes_written=*/0);
+      }
       if (!EVP_DecryptUpdate(
               ctx_.get(), plaintext_ptr, reinterpret_cast<int*>(&bytes_written),
               ciphertext_ptr, static_cast<int>(bytes_to_write))) {
-- 
2.43.0


From 897fc3820cc2f138b513bb9da6eb62cc1a0da06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:17 +0000
Subject: [PATCH 04/17] fix: treat a handshake message without data as complete
 once its header is read

---
 src/record_protocol/handshake_message_handler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..7796266 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -81,6 +81,9 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
           if (num_data_bytes_expecting_to_read_ > 0) {
             state_ = State::READ_DATA;
+          } else {
+            /* The message has no data, so the header completes it. */
+            full_hs_message_read = true;
           }
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
-- 
2.43.0


From c7d28ee00dd4157bb7978cd426fd68836e41d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 05/17] fix: update the inbound key once per key update
 message, when it is complete

---
 src/record_protocol/s2a_crypter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..ab17907 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -496,8 +496,8 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           result.expecting_to_read_more_bytes;
 
       // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // message that has been completely read.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 3720e3b1f74d7541a71368708980d0547268b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 06/17] fix: take the mutex in S2AHalfConnection::TagLength

---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From 15bc8e4353ca7b4c363646219aaa8fea76511c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:55 +0000
Subject: [PATCH 07/17] fix: send the stored tickets when a further ticket is
 partially read

---
 src/record_protocol/handshake_message_handler.cc | 5 ++++-
 src/record_protocol/s2a_crypter.cc               | 1 -
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index 7796266..2d224d7 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -169,7 +169,10 @@ HandshakeMessageHandler::GetStoredTickets() {
                         "|GetStoredTickets| should not be called after "
                         "tickets have been retrieved.");
   }
-  if (ExpectingToReadMoreBytes() && GetMessageType() == 0x04) {
+  /* Once the maximum number of tickets is stored, later tickets are ignored, so
+   * there is no need to wait for a ticket that is partially read. */
+  if (!IgnoreFutureTickets() && ExpectingToReadMoreBytes() &&
+      GetMessageType() == kSessionTicketMessageType) {
     return absl::Status(absl::StatusCode::kInternal,
                         "|GetStoredTickets| should not be called while "
                         "waiting to read more ticket bytes.");
diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index ab17907..4c4935a 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -521,7 +521,6 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           if (result.contains_ticket &&
               result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From 06a9919bf118fabd03baf301145e9daa87ea3340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 08/17] fix: do not destroy the caller's |protected_bytes|
 buffer when protecting fails

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..5269547 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -286,8 +286,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status; the caller still owns the
+    // |protected_bytes| buffer.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -297,7 +297,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -305,7 +304,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From b606e840d8f8251cf69eece92cfa66f615412e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 09/17] fix: destroy already allocated plaintext buffers when a
 later record is malformed

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 5269547..1c96ba8 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -405,6 +405,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -429,6 +432,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 834952924dc884d5774eee93bd24682aa9dfc85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 10/17] fix: report a short partial TLS record at the end of
 |protected_bytes|

---
 src/frame_protector/s2a_frame_protector.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 1c96ba8..3cc3648 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -467,6 +467,14 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
     plaintext.push_back(unprotected_bytes);
     bytes_remaining -= kTls13RecordHeaderLength + payload_size;
   }
+  if (bytes_remaining > 0) {
+    std::string error = "|protected_bytes| ends with a partial TLS record.";
+    logger_(error);
+    for (auto& vec : plaintext) {
+      destroy_(vec);
+    }
+    return {Status(StatusCode::kFailedPrecondition, error), /*bytes=*/{}};
+  }
   return {Status(), plaintext};
 }
 
-- 
2.43.0


From bc7acde0ecad5602a30beea26349a3e181e18861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 11/17] fix: skip empty components when reading TLS records

---
 src/frame_protector/s2a_frame_protector.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 3cc3648..10e5690 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,6 +101,12 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // There are no bytes left on |vecs[iovec_index]|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t buffer_length = vecs[iovec_index].iov_len;
@@ -166,6 +172,12 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // There are no bytes left on |vecs[iovec_index]|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From d99f005592a146c55cc1adc5da484d889a87f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 12/17] fix: reject bytes after the TLS record in the
 single-record Unprotect

---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 10e5690..5abf4f0 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -353,6 +353,12 @@ Status S2AFrameProtector::Unprotect(
   }
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
+  if (record_size_result.record_size < GetTotalIovecLength(protected_bytes)) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| contains more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
 
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
-- 
2.43.0


From 2f2b54abeb56b86ff6a389050a5f24f89cb10319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 13/17] fix: keep the whole identity when converting it to
 proto, NUL bytes included

---
 src/handshaker/s2a_util.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/handshaker/s2a_util.cc b/src/handshaker/s2a_util.cc
index d1daa84..955c08a 100644
--- a/src/handshaker/s2a_util.cc
+++ b/src/handshaker/s2a_util.cc
@@ -66,17 +66,23 @@ absl::variant<Status, s2a_proto_Identity*> ConvertIdentityToProto(
     case IdentityType::SPIFFE_ID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_spiffe_id(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::HOSTNAME:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_hostname(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     case IdentityType::UID:
       proto_identity = s2a_proto_Identity_new(arena);
       s2a_proto_Identity_set_uid(
-          proto_identity, upb_strview_makez(identity.GetIdentityCString()));
+          proto_identity,
+          upb_strview_make(identity.GetIdentityCString(),
+                           identity.GetIdentityString().size()));
       return proto_identity;
     default:
       return nullptr;
-- 
2.43.0


From 3e2d7ae7f21ef0eb7a7716ebad4b0d5fa698c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 14/17] fix: keep the whole protocol name and fingerprints when
 serializing an S2A context

---
 src/handshaker/s2a_context.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..52dab53 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,7 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context, upb_strview_makez(application_protocol_.c_str()));
+      context,
+      upb_strview_make(application_protocol_.data(), application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -135,9 +136,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context,
+      upb_strview_make(peer_cert_fingerprint_.data(), peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context,
+      upb_strview_make(local_cert_fingerprint_.data(), local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
-- 
2.43.0


From 2fb831a9126f05cf3f9a07a71d43216de97f20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 15/17] fix: keep the whole local identity in a resumption
 ticket request

---
 src/record_protocol/s2a_upb_ticket_sender.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_upb_ticket_sender.cc b/src/record_protocol/s2a_upb_ticket_sender.cc
index c7c5ee7..9b40e2f 100644
--- a/src/record_protocol/s2a_upb_ticket_sender.cc
+++ b/src/record_protocol/s2a_upb_ticket_sender.cc
@@ -56,15 +56,21 @@ bool PrepareResumptionTicketReq(
   switch (local_identity.GetIdentityType()) {
     case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
       s2a_proto_Identity_set_spiffe_id(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::HOSTNAME:
       s2a_proto_Identity_set_hostname(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     case s2a_options::S2AOptions::IdentityType::UID:
       s2a_proto_Identity_set_uid(
-          identity, upb_strview_makez(local_identity.GetIdentityCString()));
+          identity,
+          upb_strview_make(local_identity.GetIdentityCString(),
+                           local_identity.GetIdentityString().size()));
       break;
     default:
       return false;
-- 
2.43.0


From 0618e59491af14e869ea8141e11de6cf594b1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 16/17] fix: keep whole strings (NUL bytes included) in
 requests to the S2A

---
 src/handshaker/s2a_proxy.cc | 81 ++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 24 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..2b7470c 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -370,7 +370,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
-      client_start, upb_strview_makez(application_protocol_.c_str()),
+      client_start,
+      upb_strview_make(application_protocol_.data(), application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -434,15 +435,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (target_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(target_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(target_identity.GetIdentityCString(),
+                             target_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -469,15 +476,21 @@ ProxyStatus S2AProxy::GetClientStart() {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -489,7 +502,8 @@ ProxyStatus S2AProxy::GetClientStart() {
 
   // Set the target name to the hostname of the server.
   s2a_proto_ClientSessionStartReq_set_target_name(
-      client_start, upb_strview_makez(target_hostname_.c_str()));
+      client_start,
+      upb_strview_make(target_hostname_.data(), target_hostname_.size()));
 
   // Attach tokens per local identity, if a token manager exists.
   PopulateTokenCache();
@@ -497,26 +511,30 @@ ProxyStatus S2AProxy::GetClientStart() {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -552,7 +570,8 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
 
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
-      server_start, upb_strview_makez(application_protocol_.c_str()),
+      server_start,
+      upb_strview_make(application_protocol_.data(), application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -617,15 +636,21 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     switch (local_identity.GetIdentityType()) {
       case IdentityType::SPIFFE_ID:
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::HOSTNAME:
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       case IdentityType::UID:
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(local_identity.GetIdentityCString()));
+            identity,
+            upb_strview_make(local_identity.GetIdentityCString(),
+                             local_identity.GetIdentityString().size()));
         break;
       default:
         std::string error = "Unsupported identity format.";
@@ -648,26 +673,30 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
@@ -717,26 +746,30 @@ ProxyStatus S2AProxy::GetNext(std::unique_ptr<Buffer> bytes_from_peer) {
     s2a_proto_AuthenticationMechanism* auth_mechanism =
         s2a_proto_SessionReq_add_auth_mechanisms(request, arena.ptr());
     s2a_proto_AuthenticationMechanism_set_token(
-        auth_mechanism, upb_strview_makez(pair.second.c_str()));
+        auth_mechanism,
+        upb_strview_make(pair.second.data(), pair.second.size()));
     s2a_proto_Identity* identity = nullptr;
     switch (pair.first.GetIdentityType()) {
       case s2a_options::S2AOptions::IdentityType::SPIFFE_ID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_spiffe_id(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::HOSTNAME:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_hostname(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       case s2a_options::S2AOptions::IdentityType::UID:
         identity = s2a_proto_AuthenticationMechanism_mutable_identity(
             auth_mechanism, arena.ptr());
         s2a_proto_Identity_set_uid(
-            identity, upb_strview_makez(pair.first.GetIdentityCString()));
+            identity, upb_strview_make(pair.first.GetIdentityCString(),
+                                       pair.first.GetIdentityString().size()));
         break;
       default:
         logger_(
-- 
2.43.0


From 279eeadf03fe2bf4178588910fad9f42d33be475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:37 +0000
Subject: [PATCH 17/17] fix: report the handshake as finished only after a
 valid result has been parsed

---
 src/handshaker/s2a_context.cc | 12 ++++++------
 src/handshaker/s2a_proxy.cc   | 34 ++++++++++++++++++++--------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 52dab53..6038028 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -75,8 +75,8 @@ S2AContext::GetSerializedContext() const {
   upb::Arena arena;
   s2a_proto_S2AContext* context = s2a_proto_S2AContext_new(arena.ptr());
   s2a_proto_S2AContext_set_application_protocol(
-      context,
-      upb_strview_make(application_protocol_.data(), application_protocol_.size()));
+      context, upb_strview_make(application_protocol_.data(),
+                                application_protocol_.size()));
 
   // Set the TLS version.
   absl::variant<Status, s2a_proto_TLSVersion> tls_version_status =
@@ -136,11 +136,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context,
-      upb_strview_make(peer_cert_fingerprint_.data(), peer_cert_fingerprint_.size()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context,
-      upb_strview_make(local_cert_fingerprint_.data(), local_cert_fingerprint_.size()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 2b7470c..575d786 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -262,7 +261,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto handshake_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -281,7 +280,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    handshake_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -300,24 +299,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    handshake_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
+    handshake_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(handshake_result->in_traffic_secret.data(), in_traffic_secret.data,
            in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
+    handshake_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(handshake_result->out_traffic_secret.data(), out_traffic_secret.data,
            out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    handshake_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    handshake_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -336,9 +337,10 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    handshake_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    handshake_result->connection_id =
+        s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -352,6 +354,8 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+    result_ = std::move(handshake_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
@@ -371,7 +375,8 @@ ProxyStatus S2AProxy::GetClientStart() {
   // Set the application protocol.
   s2a_proto_ClientSessionStartReq_add_application_protocols(
       client_start,
-      upb_strview_make(application_protocol_.data(), application_protocol_.size()),
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
@@ -571,7 +576,8 @@ ProxyStatus S2AProxy::GetServerStart(std::unique_ptr<Buffer> bytes_from_peer) {
   // Set the application protocol.
   s2a_proto_ServerSessionStartReq_add_application_protocols(
       server_start,
-      upb_strview_make(application_protocol_.data(), application_protocol_.size()),
+      upb_strview_make(application_protocol_.data(),
+                       application_protocol_.size()),
       arena.ptr());
 
   // Set the min and max TLS versions.
-- 
2.43.0

