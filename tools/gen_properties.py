#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

AES = "src/crypto/aes_gcm_crypter.cc"
CHO = "src/crypto/chacha_poly_crypter_openssl.cc"
CHB = "src/crypto/chacha_poly_crypter_boringssl.cc"
AEAD = "src/crypto/s2a_aead_crypter.cc"
HKDF = "src/crypto/hkdf.cc"
HC = "src/record_protocol/s2a_half_connection.cc"
CR = "src/record_protocol/s2a_crypter.cc"
CU = "src/record_protocol/s2a_crypter_util.cc"
HM = "src/record_protocol/handshake_message_handler.cc"
FP = "src/frame_protector/s2a_frame_protector.cc"
PX = "src/handshaker/s2a_proxy.cc"
CT = "src/handshaker/s2a_context.cc"
UT = "src/handshaker/s2a_util.cc"
TS = "src/record_protocol/s2a_upb_ticket_sender.cc"
OP = "src/options/s2a_options.cc"
TM = "src/token_manager/single_token_access_token_manager.cc"

prop("P01", "AEAD encryption is the standard one, for every way the input is fragmented",
 "Encrypting with a valid key and nonce writes exactly the standard AES-GCM or ChaCha20-Poly1305 ciphertext of the concatenated plaintext pieces followed by the 16-byte tag over the concatenated associated data and ciphertext, however the plaintext and associated data are split into pieces (empty pieces included). The reported byte count is exactly the plaintext length plus 16, and no byte of the output buffer beyond it is touched.",
 ["inputs"], "all keys, nonces, associated data, plaintexts, piece boundaries and output buffer sizes, for AES-128-GCM, AES-256-GCM and ChaCha20-Poly1305 (OpenSSL and BoringSSL variants)",
 "The tests run fixed vectors with one or two fixed splits; the claim is over every length, every split and every buffer size, including zero-length pieces anywhere.",
 [AES, CHO, CHB, AEAD], [("incremental update loop over plaintext pieces, then tag", AES+" Encrypt"), ("same, OpenSSL ChaCha", CHO+" Encrypt"), ("gather then one-shot seal", CHB+" Encrypt")],
 observe=["S2AAeadCrypter::Encrypt"])
prop("P02", "AEAD decryption releases plaintext only after authentication",
 "Decrypting succeeds exactly when the final 16 bytes of the concatenated input are the correct tag for the key, nonce, associated data and preceding ciphertext, however ciphertext and tag are split into pieces (the tag may straddle pieces, pieces may be empty); on success the output is exactly the plaintext and the count is exact. On any error, the output buffer holds no byte derived from decrypting the unauthenticated ciphertext.",
 ["inputs"], "all keys, nonces, associated data, ciphertexts, tags, splits (including tag straddling several pieces) and output buffer sizes, for all three ciphers",
 "Tests use a handful of splits and do not inspect the output buffer after failures such as an output buffer that becomes too small part-way.",
 [AES, CHO, CHB], [("tag excluded from the decrypt loop and collected afterwards", AES+" Decrypt"), ("wipe of the output on failure", AES+" DecryptCheckTagAndFinalize"), ("one-shot open", CHB+" Decrypt")],
 observe=["S2AAeadCrypter::Decrypt"])
prop("P03", "AEAD operations reject malformed arguments without faulting",
 "A key of unsupported length, a nonce of the wrong length, a piece with no memory but nonzero length, an input too short to hold a tag, or an output buffer too small is reported as an error, never as success and never by a crash, and no memory outside the caller's output buffer is written. A key of a supported length always yields a working crypter reporting that key length, a 12-byte nonce and a 16-byte tag, and the maximum-length helpers agree with what encryption and decryption produce.",
 ["inputs"], "all key lengths, nonce lengths, piece vectors (null pieces at any position, including in the tag part) and output sizes",
 "Tests sample one invalid nonce length, one null piece in the first position, one short buffer.",
 [AES, CHO, CHB, AEAD], [("argument checks", AES), ("argument checks", CHO), ("argument checks", CHB), ("length helpers", AEAD)],
 observe=["CreateAesGcmAeadCrypter", "CreateChachaPolyAeadCrypter", "S2AAeadCrypter::Encrypt", "S2AAeadCrypter::Decrypt"])
prop("P04", "Key derivation computes HKDF-Expand for every output length",
 "Secret derivation writes exactly the RFC 5869 HKDF-Expand output of the requested length for the chosen hash, secret and context, for every length from zero to 255 hash blocks, also when the output storage is the input secret itself. An unsupported hash, a secret shorter than the hash output, or a longer request is rejected with an error and leaves the output untouched.",
 ["inputs"], "all hash choices, secrets, context strings and output lengths 0..255*hash length and beyond",
 "Tests cover a few RFC vectors; block-boundary lengths, the 255th block, and in-place derivation are not covered.",
 [HKDF], [("per-block HMAC chain with one-byte counter", HKDF+" HkdfDerivation"), ("argument checks", HKDF+" HkdfDeriveSecret")],
 observe=["HkdfDeriveSecret"])
prop("P05", "A connection direction uses exactly the TLS 1.3 traffic keys",
 "A connection direction created from a traffic secret encrypts and decrypts with the TLS 1.3 record key and IV (HKDF-Expand-Label with 'key' and 'iv') of that secret under the hash, key length and cipher of the chosen ciphersuite. Creation succeeds exactly when the ciphersuite is supported and the secret has that ciphersuite's hash length.",
 ["inputs", "configurations"], "all ciphersuites (including values outside the supported set), all traffic secrets of any length and all starting sequence numbers",
 "Tests check one known secret per ciphersuite and only end-to-end ciphertext; the property is for every secret and length.",
 [HC, CU, HKDF], [("label construction", HC+" DeriveSecret"), ("ciphersuite table", HC+" Create"), ("hash selection", CU)],
 observe=["S2AHalfConnection::Create"])
prop("P06", "Record nonces never repeat under one key",
 "Every encryption or decryption on a connection direction uses the IV exclusive-or'ed with the 64-bit big-endian record sequence number, starting from the given number and advancing by exactly one per operation whether or not it succeeds, so no two operations under one key share a nonce. Once the last sequence number has been used every further operation fails until the key is updated.",
 ["inputs", "histories"], "all starting sequence numbers and all histories of encryptions, decryptions and key updates on one direction, including those crossing 2^64-1",
 "Tests perform a few operations from sequence 0 or near the maximum; nonce uniqueness is over every history and every sequence number.",
 [HC], [("nonce masking, increment and overflow latch", HC+" NonceMask"), ("usable-state gate", HC+" Encrypt/Decrypt")],
 state=[("sequence number", "next record number in this direction", "include src/record_protocol/s2a_half_connection.h"), ("overflow latch", "set when the 64-bit counter wraps", "src/record_protocol/s2a_half_connection.h")],
 observe=["S2AHalfConnection::Encrypt", "S2AHalfConnection::Decrypt"])
prop("P07", "A key update moves to the next TLS 1.3 traffic secret and restarts numbering",
 "Updating the key of a connection direction replaces its traffic secret by HKDF-Expand-Label of the old one with label 'traffic upd', re-derives key and IV from the new secret and restarts the sequence number at zero, any number of times, re-enabling a direction whose sequence numbers ran out. If any step of an update fails, every later operation on that direction fails.",
 ["inputs", "histories", "fault_sequences"], "all ciphersuites, secrets, numbers of successive updates, interleavings with encryptions/decryptions, and failure of any derivation or cipher-creation step",
 "Tests perform at most a couple of updates and never inject derivation failures.",
 [HC], [("secret advance", HC+" AdvanceSecret"), ("re-key and reset", HC+" UpdateKey")],
 state=[("always-fail latch", "set when an update fails", "src/record_protocol/s2a_half_connection.h")],
 observe=["S2AHalfConnection::UpdateKey", "S2ACrypter::UpdateOutboundKey"])
prop("P08", "Protecting data yields exactly one well-formed TLS 1.3 record",
 "Protecting up to 2^14 plaintext bytes in any number of pieces produces the 5-byte header 23,3,3,length, whose length field counts all following bytes, followed by the encryption under the outbound key of plaintext followed by the content-type byte with that header as associated data; the reported size is plaintext length plus 22. Larger plaintext, a too-small record buffer or an unknown record type is refused without producing a record, and on an encryption error the record buffer is wiped.",
 ["inputs"], "all plaintext lengths and splits, record types, record buffer sizes and ciphersuites",
 "The tests for this layer protect a few short messages; header length encoding across the whole 0..2^14 range and every split is not tested (and these tests are not even built here).",
 [CR], [("size checks, header writer, type byte appended, AAD = header", CR+" Protect")],
 observe=["S2ACrypter::Protect", "S2ACrypter::RecordOverhead"])
prop("P09", "Unprotecting accepts only valid records and surfaces only application data",
 "Unprotecting a record succeeds with data only if its header is 23,3,3 with a length field equal to the payload length, its total size is between 22 and 2^14+22 bytes, its payload authenticates under the inbound key with the header as associated data, and its content type after removing zero padding is application data; the output is then exactly the content without type byte and padding. Oversized records yield the record-overflow error, and any other invalid record an error; in every non-application or failing case the reported byte count is zero.",
 ["inputs", "histories"], "all headers, payloads, splits, amounts of zero padding, content-type bytes and output buffers, in every state of the connection",
 "Tests sample a few malformed headers and one padded record.",
 [CR], [("size/header validation, padding scan, type dispatch", CR+" Unprotect"), ("header validation", CR+" ValidateTls13RecordHeader")],
 observe=["S2ACrypter::Unprotect"])
prop("P10", "Alerts are recognised and close-notify is final",
 "An authenticated alert record is never reported as success: close-notify is reported as such, any other alert as another alert, one with fewer than two bytes as an invalid record, and an unknown content type as an invalid record, each with a wiped output buffer. After a close-notify alert every further unprotect reports close-notify, consumes no sequence number and touches neither keys nor output.",
 ["inputs", "histories"], "all alert bodies of any length, all content-type bytes, and all histories of records before and after a close-notify",
 "Tests send one close-notify and one other alert; stickiness is over all later histories.",
 [CR], [("alert branch and latch", CR+" Unprotect")],
 state=[("close-notify latch", "set by a close-notify alert, never cleared", "src/record_protocol/s2a_crypter.h")],
 observe=["S2ACrypter::Unprotect"])
prop("P11", "Handshake messages are reassembled exactly, for every fragmentation",
 "Feeding a sequence of session-ticket and key-update messages to the handshake parser yields the same complete tickets, byte for byte and in order, and the same key updates, for every way the byte stream is cut into calls (cuts inside the 4-byte header, zero-length bodies and empty calls included); at most the first five tickets are kept. After each call the parser says it expects more bytes exactly when the stream so far ends inside a message, and an unknown message type is an error.",
 ["inputs", "histories"], "all message sequences (any body length up to 2^24-1, including 0), all cuts into calls, and all points at which stored tickets are fetched",
 "Tests use two or three fixed fragmentations of one ticket; the claim is for every cut of every stream.",
 [HM], [("two-phase header/body state machine", HM+" ProcessHandshakeMessage"), ("size and type extraction over fragments", HM+" GetMessageDataSizeFromHeader"), ("ticket store", HM+" AddTicketToStore, GetStoredTickets")],
 state=[("current fragments", "bytes of the message being assembled", "src/record_protocol/handshake_message_handler.h"), ("ticket store", "complete tickets not yet fetched", "src/record_protocol/handshake_message_handler.h")],
 observe=["HandshakeMessageHandler::ProcessHandshakeMessage", "HandshakeMessageHandler::GetStoredTickets"])
prop("P12", "Each received key-update message re-keys the inbound direction exactly once",
 "For every way a key-update message is split over records, the inbound key is updated exactly once, when the message is complete, and never for a partial message, a ticket or any other record; the outbound key is never affected. A key update followed by more bytes in the same record is an error and does not re-key.",
 ["inputs", "histories"], "all histories of handshake records containing whole, partial and repeated key updates mixed with tickets and application data",
 "Tests deliver the key update whole; fragmented delivery and repetition are not exercised.",
 [CR, HM], [("result handling", CR+" HandleProcessHandshakeMessageResult"), ("key update must be last", HM+" ProcessHandshakeMessage")],
 observe=["S2ACrypter::Unprotect"])
prop("P13", "Session tickets are forwarded once, complete and in order",
 "The session tickets received before the first application data (at most the first five) are handed to the ticket sender exactly once, each as one merged string equal to the received message, in order, together with the connection's own service address, connection id and local identity; this happens when the fifth completes or when the first application data arrives after them, and later tickets are ignored. Application data arriving in the middle of a fragmented handshake message is an error.",
 ["inputs", "histories"], "all histories of ticket, key-update and application records, all ticket sizes and fragmentations",
 "Tests send one or two whole tickets; exactly-once and ordering are over all histories.",
 [CR], [("ticket phase machine", CR+" HandleProcessHandshakeMessageResult"), ("merge and send", CR+" RetrieveStoredTicketsAndSendToS2A")],
 state=[("ticket phase", "not received / receiving / done", "src/record_protocol/s2a_crypter.h")],
 observe=["S2ACrypter::Unprotect"])
prop("P14", "Framing splits any amount of data into consecutive full records",
 "Protecting any amount of data in any number of pieces produces the concatenation of records that carry consecutive chunks of the data, every chunk but the last 2^14 bytes long (one empty record for no data), filling exactly the number of bytes announced beforehand. The announced sizes for protecting and unprotecting and the maximum record size are consistent with what is produced for every length.",
 ["inputs"], "all total lengths (any number of records), all piece boundaries including empty pieces, and all announced-size queries",
 "Tests protect a few fixed sizes with at most a few pieces.",
 [FP], [("chunking loop", FP+" Protect"), ("size formulas", FP+" NumberBytesToProtect, NumberBytesToUnprotect, MaxRecordSize")],
 observe=["S2AFrameProtector::Protect", "S2AFrameProtector::NumberBytesToProtect"])
prop("P15", "Deframing returns every record's plaintext in order or an error",
 "Unprotecting a buffer that is a concatenation of complete records returns each record's plaintext in order, for every way the bytes are split into pieces (cuts inside headers and empty pieces included). If the buffer ends in a partial record, is malformed, or (for the single-record form) holds more than one record, the result is an error and never a silent partial success.",
 ["inputs"], "all record sequences, all piece boundaries including empty pieces, all truncation points and trailing garbage",
 "Tests cover two or three splits and one truncation.",
 [FP], [("header walk", FP+" ComputeTlsRecordSize"), ("payload isolation", FP+" IsolateTlsPayload"), ("record loop", FP+" Unprotect")],
 observe=["S2AFrameProtector::Unprotect"])
prop("P16", "Every allocated buffer is either returned or destroyed exactly once",
 "Each buffer obtained from the caller's allocator during a protect or unprotect call is, by the time the call returns, either handed to the caller in the result or passed to the caller's destroy function, never both, never twice and never neither. Buffers supplied by the caller are never destroyed.",
 ["inputs", "fault_sequences"], "all inputs and all points at which protecting or unprotecting one of the records can fail",
 "Leaks and double frees on failure paths in the middle of a multi-record buffer are not observable in the existing tests.",
 [FP], [("destroy on error paths", FP+" Protect, Unprotect")],
 observe=["S2AFrameProtector::Protect", "S2AFrameProtector::Unprotect"])
prop("P17", "Handshake requests to S2A carry exactly the configuration and the peer's bytes",
 "The first message sent to S2A is a client start or server start according to role, carrying exactly the configured protocol, TLS version bounds, ciphersuites in order, identities and (client) target name or (server) the peer's bytes; every later message is a next message carrying exactly the peer's bytes. A client given peer bytes before its start, a later call without peer bytes, or a client with more than one local identity gets an error and no message, and a failed start is retried as a start.",
 ["inputs", "configurations", "histories"], "all option sets, identity strings and types, peer byte strings and sequences of calls",
 "Tests build a few fixed configurations; field mix-ups for other identity types or byte values (such as embedded zero bytes) go unnoticed, and these tests are not built here.",
 [PX, UT, OP], [("start messages", PX+" GetClientStart, GetServerStart"), ("next message", PX+" GetNext"), ("first-message latch", PX+" GetBytesForS2A")],
 observe=["S2AProxy::GetBytesForS2A"])
prop("P18", "Access tokens are attached only to the identity they were issued for",
 "With a token manager, each start request carries one authentication entry per local identity for which a token could be fetched, pairing exactly that identity with its token, or one entry with the default token and no identity when no local identity is configured; once S2A has chosen a local identity and a token for it can be fetched, requests carry that identity's token only. A token that could not be fetched is never replaced by another identity's token, and without a token manager no entry is attached.",
 ["inputs", "configurations", "histories", "fault_sequences"], "all identity sets, all token-manager outcomes per identity and call, and all handshake histories with or without a selected identity",
 "Tests use a fake token manager with fixed answers and one or two identities.",
 [PX], [("token cache rules", PX+" PopulateTokenCache"), ("attachment", PX+" GetClientStart, GetServerStart, GetNext")],
 state=[("token cache", "identity to token", "include/s2a_proxy.h")],
 observe=["S2AProxy::GetBytesForS2A"])
prop("P19", "A handshake finishes only with a complete valid result, used faithfully",
 "The handshake is reported finished, and a frame protector or context is obtainable, only after S2A returned an OK response whose result has a valid TLS version and ciphersuite, session state and local identity; until then both are refused with an error. The frame protector is then built from exactly the result's inbound and outbound secrets and sequence numbers (not exchanged), identity and connection id, the context reports exactly the result's fields, and bytes for the peer are forwarded unchanged with S2A's consumed count.",
 ["inputs", "histories"], "all S2A responses (any subset of fields, any field values, malformed encodings) in any order of calls",
 "Tests feed a few well-formed responses; partially filled results and error responses followed by further calls are not covered.",
 [PX, CT, UT], [("result parsing", PX+" GetBytesForPeer"), ("gates", PX+" CreateFrameProtector, GetS2AContext")],
 state=[("finished flag", "whether a result was accepted", "include/s2a_proxy.h")],
 observe=["S2AProxy::GetBytesForPeer", "S2AProxy::IsHandshakeFinished", "S2AProxy::CreateFrameProtector", "S2AProxy::GetS2AContext"])
prop("P20", "Serialising and parsing a connection context is lossless",
 "Parsing the serialised form of any connection context yields a context with the same protocol, TLS version, ciphersuite, peer and local identities, certificate fingerprints and resumption flag, byte for byte. A context with an unsupported version or ciphersuite cannot be serialised or parsed into something else: it is an error.",
 ["inputs"], "all contexts with identities of types SPIFFE id, hostname and uid or absent, and all byte strings (including zero bytes) in every text field",
 "Tests round-trip one context with printable strings.",
 [CT, UT], [("serialisation", CT+" GetSerializedContext"), ("parsing", CT+" GetS2AContextFromSerializedContext")],
 observe=["S2AContext::GetSerializedContext", "GetS2AContextFromSerializedContext"])
prop("P21", "Conversions between internal and wire values are exact inverses and total",
 "For every supported TLS version, ciphersuite and identity the conversion to the wire form and back is the identity, distinct values map to distinct wire values, and each ciphersuite selects its own hash (SHA-384 only for AES-256-GCM). Every unsupported value in either direction is reported as an error (or as the empty identity), never as some supported value.",
 ["inputs"], "all enumeration values in either direction (including out-of-range ones) and all identity types and strings",
 "Tests check the named values in one direction; totality and injectivity over all integers are not tested.",
 [UT, CU], [("conversion switches", UT), ("hash selection", CU+" CiphersuiteToHashFunction")],
 observe=["s2a_util conversions", "CiphersuiteToHashFunction"])
prop("P22", "Options store what was set, compare by value, and copy independently",
 "An option object reports exactly the last values set, the ciphersuites in insertion order with duplicates, and as local and target identities exactly the sets of (type, string) pairs added; identities are equal exactly when type and string are equal, and equal identities hash equally. A copy equals the original in every field and neither is affected by later changes to the other.",
 ["inputs", "histories"], "all sequences of setter calls before and after copying, and all identity strings and types",
 "Tests call each setter once and copy one object.",
 [OP, "include/s2a_options.h"], [("setters, copy", OP), ("equality and hash", "include/s2a_options.h")],
 observe=["S2AOptions", "S2AOptions::Identity"])
prop("P23", "The ticket request names the right connection and carries every ticket",
 "The resumption-ticket request built for S2A carries exactly the connection id, the local identity with its type, and all given tickets byte for byte in order. With no ticket list or an identity of unknown type no request is produced and failure is reported.",
 ["inputs"], "all connection ids, identities of every type and string, and ticket lists of any length and content",
 "Tests use one identity per type and two printable tickets.",
 [TS], [("request builder", TS+" PrepareResumptionTicketReq")],
 observe=["PrepareResumptionTicketReq"])
prop("P24", "State shared between concurrent calls is only touched under its lock",
 "Protecting, unprotecting and updating keys on one connection may run concurrently, and the handshake object may be used from several threads: every access to the mutable sequence number, key, cipher and failure state of a direction and to the first-message and finished flags of a handshake happens while the one lock that guards it is held, and locks are released on every exit path.",
 ["schedules"], "all interleavings of public calls the documentation allows to run concurrently",
 "The tests are single-threaded.",
 [HC, FP, PX], [("scoped lock at entry", HC+" Encrypt, Decrypt, UpdateKey, TagLength"), ("scoped lock", FP+" Protect, Unprotect"), ("scoped lock", PX+" GetBytesForS2A, GetBytesForPeer")],
 observe=["S2AHalfConnection", "S2AFrameProtector", "S2AProxy"])
prop("P25", "The environment token manager returns the token it was created with",
 "A token manager created while the access-token variable is set returns exactly that value for the default and for every identity, forever, regardless of later changes to the environment; created while it is unset it returns a not-found error for every request.",
 ["inputs", "histories"], "all token values, identities, and environment changes after creation",
 "Tests set one value and query it once.",
 [TM], [("read once at construction", TM)],
 observe=["SingleTokenAccessTokenManager"])
prop("P26", "Concurrent protect and unprotect calls always make progress",
 "Whenever calls the documentation allows to overlap are made concurrently, every one of them eventually returns: no interleaving deadlocks or starves a caller.",
 ["schedules"], "all interleavings and schedulers",
 "The tests are single-threaded and liveness is not observable in a finite run.",
 [HC, FP, PX], [("absl::Mutex", HC), ("absl::Mutex", FP), ("absl::Mutex", PX)])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
