"""Which contract units and which native oracle decide which property."""

AEAD_FILES = ["src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc",
              "src/crypto/s2a_aead_crypter.cc", "src/crypto/s2a_aead_crypter_util.cc", "src/crypto/s2a_aead_constants.h"]
HALF_FILES = ["src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_half_connection.h", "src/record_protocol/s2a_crypter_util.cc", "src/crypto/hkdf.cc"]
IMPLS = ("aes", "chacha", "chacha-boringssl")

HKDF_U = [("hkdf", "derive", "distinct"), ("hkdf", "derive", "in-place")]
CREATE_U = [("aead", "create", "aes"), ("aead", "create", "chacha")]
WRAP_AEAD = ("EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_EncryptUpdate", "EVP_DecryptUpdate", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex", "EVP_CIPHER_CTX_ctrl",
             "HMAC_Init_ex", "HMAC_Update", "HMAC_Final")
WRAP_HALF = ("HMAC_Init_ex", "HMAC_Final", "HMAC_Update", "EVP_DecryptInit_ex", "EVP_CIPHER_CTX_ctrl")

# property -> dict(units=[(module, function, args...)], oracle=(source, variant, wraps) list, files=files mined for literals)
PROPS = {
    "P01": dict(units=[("aead", "encrypt", i) for i in IMPLS], oracle=[("crypto", "openssl", WRAP_AEAD), ("crypto", "boringssl", ())], files=AEAD_FILES),
    "P02": dict(units=[("aead", "decrypt", i) for i in IMPLS], oracle=[("crypto", "openssl", WRAP_AEAD), ("crypto", "boringssl", ())], files=AEAD_FILES),
    "P03": dict(units=[("aead", "create", i) for i in IMPLS] + [("aead", "lengths")] + [("aead", f, i) for f in ("encrypt", "decrypt") for i in IMPLS],
                oracle=[("crypto", "openssl", WRAP_AEAD), ("crypto", "boringssl", ())], files=AEAD_FILES),
    "P04": dict(units=[("hkdf", "derive", "distinct"), ("hkdf", "derive", "in-place")], oracle=[("crypto", "openssl", WRAP_AEAD)], files=["src/crypto/hkdf.cc", "src/crypto/s2a_aead_constants.h"]),
    "P05": dict(units=[("half", "create"), ("half", "suite_hash"), ("crypter", "create")], callees=HKDF_U + CREATE_U, oracle=[("half", "openssl", WRAP_HALF)], files=HALF_FILES),
    "P06": dict(units=[("half", "op", "Encrypt"), ("half", "op", "Decrypt"), ("half", "create"), ("half", "update_key"), ("half", "lemmas")], oracle=[("half", "openssl", WRAP_HALF)], files=HALF_FILES),
    "P07": dict(units=[("half", "update_key"), ("half", "op", "Encrypt"), ("half", "op", "Decrypt")], callees=HKDF_U + CREATE_U, oracle=[("half", "openssl", WRAP_HALF)], files=HALF_FILES),
}

HMH_FILES = ["src/record_protocol/handshake_message_handler.cc", "src/record_protocol/handshake_message_handler.h"]
CRY_FILES = ["src/record_protocol/s2a_crypter.cc", "src/record_protocol/s2a_crypter.h"] + HMH_FILES
FP_FILES = ["src/frame_protector/s2a_frame_protector.cc", "include/s2a_frame_protector.h"]
PX_FILES = ["src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_util.cc", "src/handshaker/s2a_context.cc"]
OPT_FILES = ["src/options/s2a_options.cc", "src/token_manager/single_token_access_token_manager.cc"]
WRAP_PROXY = ("_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE",)
_MU = "_ZN4absl7debian35Mutex"
WRAP_MU = (_MU + "4LockEv", _MU + "6UnlockEv", _MU + "10ReaderLockEv", _MU + "12ReaderUnlockEv")
HALF_U = [("half", "op", "Encrypt"), ("half", "op", "Decrypt"), ("half", "update_key"), ("half", "tag_length"), ("half", "create")]
HMH_U = [("hmh", "process"), ("hmh", "fetch"), ("hmh", "construct")]
FP_P = [("frame", "protect", "into"), ("frame", "protect", "alloc")]
FP_U = [("frame", "unprotect_one"), ("frame", "unprotect_all")]
CRY_U = [("crypter", "protect"), ("crypter", "unprotect"), ("crypter", "small"), ("crypter", "create")]
WIRE_U = [("wire", "conversions"), ("wire", "identity"), ("wire", "view")]
PROPS.update({
    "P08": dict(units=[("crypter", "protect"), ("crypter", "small"), ("crypter", "create")], callees=HALF_U, oracle=[("crypter", "openssl", ())], files=CRY_FILES),
    "P09": dict(units=[("crypter", "unprotect"), ("crypter", "small")], callees=HALF_U, oracle=[("crypter", "openssl", ())], files=CRY_FILES),
    "P10": dict(units=[("crypter", "unprotect"), ("crypter", "create")], callees=HALF_U, oracle=[("crypter", "openssl", ())], files=CRY_FILES),
    "P11": dict(units=HMH_U, oracle=[("hmh", "openssl", ())], files=HMH_FILES),
    "P12": dict(units=[("crypter", "unprotect"), ("crypter", "small"), ("hmh", "process")], callees=HALF_U, oracle=[("crypter", "openssl", ())], files=CRY_FILES),
    "P13": dict(units=[("crypter", "unprotect"), ("crypter", "create"), ("hmh", "process"), ("hmh", "fetch"), ("wire", "tickets"), ("frame", "create")], callees=HALF_U, oracle=[("crypter", "openssl", ())], files=CRY_FILES),
    "P14": dict(units=[("frame", "sizes"), *FP_P, ("frame", "create")], callees=CRY_U, oracle=[("frame", "openssl", ())], files=FP_FILES),
    "P15": dict(units=[("frame", "head_size"), ("frame", "isolate"), *FP_U], callees=CRY_U, oracle=[("frame", "openssl", ())], files=FP_FILES),
    "P16": dict(units=[("frame", "isolate"), *FP_P, *FP_U, ("frame", "create")], callees=CRY_U, oracle=[("frame", "openssl", ())], files=FP_FILES),
    "P17": dict(units=[("proxy", "to_s2a", "client"), ("proxy", "to_s2a", "server"), ("proxy", "to_s2a", "next"), ("proxy", "create")], callees=WIRE_U, oracle=[("proxy", "openssl", WRAP_PROXY)], files=PX_FILES),
    "P18": dict(units=[("proxy", "to_s2a", "client"), ("proxy", "to_s2a", "server"), ("proxy", "to_s2a", "next"), ("proxy", "create"), ("proxy", "for_peer")], callees=WIRE_U, oracle=[("proxy", "openssl", WRAP_PROXY)], files=PX_FILES),
    "P19": dict(units=[("proxy", "for_peer"), ("proxy", "gates"), ("proxy", "create"), ("wire", "context"), ("crypter", "create"), ("frame", "create")], callees=WIRE_U, oracle=[("proxy", "openssl", WRAP_PROXY)], files=PX_FILES),
    "P20": dict(units=[("wire", "context"), ("wire", "parse_any")], callees=[("wire", "conversions"), ("wire", "identity"), ("wire", "view")], oracle=[("context", "openssl", ())], files=PX_FILES),
    "P21": dict(units=[("half", "suite_hash"), ("wire", "conversions"), ("wire", "identity"), ("wire", "view")], oracle=[("context", "openssl", ())], files=PX_FILES),
    "P22": dict(units=[("options", "identities"), ("options", "setters"), ("options", "copy")], oracle=[("options", "openssl", ())], files=OPT_FILES),
    "P23": dict(units=[("wire", "tickets")], oracle=[("context", "openssl", ())], files=["src/record_protocol/s2a_upb_ticket_sender.cc"]),
    "P24": dict(units=[("half", "op", "Encrypt"), ("half", "op", "Decrypt"), ("half", "update_key"), ("half", "tag_length"),
                       ("proxy", "to_s2a", "client"), ("proxy", "to_s2a", "server"), ("proxy", "to_s2a", "next"), ("proxy", "for_peer"), ("proxy", "gates"), *FP_P, *FP_U],
                oracle=[("conc_tsan", "openssl", WRAP_MU)], files=HALF_FILES + PX_FILES + FP_FILES),
    "P25": dict(units=[("options", "token")], oracle=[("options", "openssl", ())], files=OPT_FILES),
})
for _p in PROPS.values():
    if not _p["units"]:
        _p.update(level="exploration", technique="bounded stand-in so far: native histories against a reference (contract units under construction)")

ASSUME = [
    "library functions (libc, std, absl, OpenSSL/BoringSSL EVP, HMAC and EVP_AEAD, upb) behave as modelled in cppvc/models.py and contracts/evp.py",
    "the total length of the pieces of one call is below 2^62 bytes and memory allocation succeeds",
    "input memory of a call does not overlap its output memory (except the in-place key derivation, which has its own contract)",
]

NOT_APPLICABLE = {}
NOT_APPLICABLE["P26"] = "liveness over thread schedules (fair scheduling, termination of concurrent histories): partial-correctness contracts over sequential code cannot state it; the lock discipline it rests on is P24"
