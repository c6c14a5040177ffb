// Oracles for the AEAD crypters and HKDF (P01-P04).
#include "common.h"
#include "src/crypto/s2a_aead_crypter.h"
#ifndef ORACLE_BORINGSSL
#include "src/crypto/hkdf.h"
#endif
using namespace s2a::aead_crypter;

// Fault injection at the crypto library boundary (OpenSSL variant, linked with -Wl,--wrap).
static long g_fail_at = -1, g_calls = 0;
#ifndef ORACLE_BORINGSSL
static bool inject() { return g_fail_at >= 0 && g_calls++ == g_fail_at; }
#define INJECT(fn, params, args) \
  int __real_##fn params;        \
  int __wrap_##fn params { return inject() ? 0 : __real_##fn args; }
extern "C" {
INJECT(EVP_EncryptInit_ex, (EVP_CIPHER_CTX * c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i))
INJECT(EVP_DecryptInit_ex, (EVP_CIPHER_CTX * c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i))
INJECT(EVP_EncryptUpdate, (EVP_CIPHER_CTX * c, unsigned char* o, int* n, const unsigned char* i, int l), (c, o, n, i, l))
INJECT(EVP_DecryptUpdate, (EVP_CIPHER_CTX * c, unsigned char* o, int* n, const unsigned char* i, int l), (c, o, n, i, l))
INJECT(EVP_EncryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* n), (c, o, n))
INJECT(EVP_DecryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* n), (c, o, n))
INJECT(HMAC_Init_ex, (HMAC_CTX * c, const void* k, int l, const EVP_MD* m, ENGINE* e), (c, k, l, m, e))
INJECT(HMAC_Update, (HMAC_CTX * c, const unsigned char* d, size_t l), (c, d, l))
INJECT(HMAC_Final, (HMAC_CTX * c, unsigned char* o, unsigned int* l), (c, o, l))
INJECT(EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * c, int t, int a, void* p), (c, t, a, p))
}
#endif
static void arm(bool on) { g_calls = 0; g_fail_at = on ? (long)C.below(C.coin() ? 8 : 30) : -1; }
static bool struck() { bool r = g_fail_at >= 0 && g_calls > g_fail_at; g_fail_at = -1; return r; }
static std::string fault() { return g_fail_at < 0 ? "" : " with the SSL library failing its call number " + str(g_fail_at) + ","; }
typedef std::unique_ptr<S2AAeadCrypter> CP;

static CP make(Alg a, const Bytes& key) {
  auto v = a == CC ? CreateChachaPolyAeadCrypter(key) : CreateAesGcmAeadCrypter(key);
  if (v.index() != 1) return nullptr;
  return std::move(absl::get<1>(v));
}
static size_t keylen(Alg a) { return a == A128 ? 16 : 32; }
static const char* aname(Alg a) { return a == A128 ? "AES-128-GCM" : a == A256 ? "AES-256-GCM" : "ChaCha20-Poly1305"; }
static Alg pick() {
#ifdef ORACLE_BORINGSSL
  return CC;
#else
  return (Alg)C.below(3);
#endif
}
static std::vector<Iovec> iov(const Split& s) {
  std::vector<Iovec> r;
  for (auto& p : s.v) r.push_back({p.second ? (void*)p.first : (p.first ? (void*)"" : nullptr), p.second});
  r.shrink_to_fit();  // so that a read past the last piece is seen
  return r;
}

// One crypter is reused for several operations, so that state carried over is exercised too.
static bool p01() {
  while (C.more()) {
    Alg a = pick();
    Bytes key = C.bytes(keylen(a));
    CP c = make(a, key);
    CHECK(c != nullptr, "a key of supported length was refused");
    int ops = 1 + C.below(4);
    for (int k = 0; k < ops; k++) {
      Bytes nonce = C.bytes(12), aad = C.bytes(C.len(C.coin(20) ? 5000 : 200)), pt = C.bytes(C.len(C.coin(10) ? 70000 : 600));
      Split sa, sp;
      split(sa, aad); split(sp, pt);
      size_t extra = C.coin() ? 0 : C.len(64);
      Bytes out(pt.size() + 16 + extra, 0xA5);
      arm(C.coin(5));
      C.cur = std::string(aname(a)) + " encrypt" + fault() + " key=" + hex(key) + " nonce=" + hex(nonce) + " aad pieces=" + sa.desc + " plaintext pieces=" + sp.desc + " buffer=" + str(out.size()) + " operation=" + str(k) + " aad=" + hex(aad) + " plaintext=" + hex(pt);
      auto r = c->Encrypt(nonce, iov(sa), iov(sp), {out.data(), out.size()});
      if (struck()) {
        CHECK(!r.GetStatus().ok() && r.GetBytesWritten() == 0, "success reported although the SSL library failed");
        for (size_t i = pt.size() + 16; i < out.size(); i++) CHECK(out[i] == 0xA5, "byte beyond the tag was written");
        case_done(str(a) + "/fault/" + sp.desc, true);
        continue;
      }
      CHECK(r.GetStatus().ok(), "valid encryption failed: " + std::string(r.GetStatus().message()));
      CHECK(r.GetBytesWritten() == pt.size() + 16, "reported " + str(r.GetBytesWritten()) + " bytes instead of " + str(pt.size() + 16));
      Bytes want = ref_seal(a, key, nonce, aad, pt);
      CHECK(memcmp(want.data(), out.data(), want.size()) == 0, "ciphertext or tag differs from the standard one: " + hex(out) + " instead of " + hex(want));
      for (size_t i = want.size(); i < out.size(); i++) CHECK(out[i] == 0xA5, "byte beyond the tag was written");
      if (C.coin(3)) {  // interleave a decryption on the same crypter
        Bytes p2(pt.size());
        Split sc; split(sc, want);
        uint8_t dummy;
        auto d = c->Decrypt(nonce, iov(sa), iov(sc), {p2.empty() ? &dummy : p2.data(), p2.size()});
        (void)d;
      }
      case_done(str(a) + "/" + sa.desc + "/" + sp.desc, sp.v.size() > 1);
    }
  }
  return true;
}

static bool p02() {
  while (C.more()) {
    Alg a = pick();
    Bytes key = C.bytes(keylen(a));
    CP c = make(a, key);
    CHECK(c != nullptr, "a key of supported length was refused");
    int ops = 1 + C.below(3);
    for (int k = 0; k < ops; k++) {
      Bytes nonce = C.bytes(12), aad = C.bytes(C.len(200)), pt = C.bytes(C.len(C.coin(10) ? 70000 : 400));
      // make plaintext recognisable: no zero bytes, no 0xA5
      for (auto& x : pt) if (x == 0 || x == 0xA5) x = 0x41;
      Bytes ct = ref_seal(a, key, nonce, aad, pt);
      int mode = C.below(8);
      std::string m = "valid";
      Bytes aad2 = aad, nonce2 = nonce;
      if (mode == 0) { size_t i = ct.size() - 1 - C.below(16); ct[i] ^= 1 << C.below(8); m = "tag byte " + str(i) + " changed"; }
      if (mode == 1 && !pt.empty()) { size_t i = C.below(pt.size()); ct[i] ^= 1 << C.below(8); m = "ciphertext byte " + str(i) + " changed"; }
      if (mode == 2) { size_t i = C.below(12); nonce2[i] ^= 1 << C.below(8); m = "nonce changed"; }
      if (mode == 3) { if (aad.empty() || C.coin()) aad2.push_back(0); else aad2[C.below(aad.size())] ^= 0x80; m = "aad changed"; }
      if (mode == 4) { size_t n = C.below(ct.size() + 1); ct.resize(n); m = "truncated to " + str(n); }
      Split sa, sc;
      split(sa, aad2); split(sc, ct, 12);
      size_t need = ct.size() < 16 ? 0 : ct.size() - 16;
      size_t cap = need;
      auto vc = iov(sc);
      bool hole = false;
      if (C.coin(6)) {  // a piece without memory, somewhere in the input
        hole = true;
        size_t at = C.below(vc.size() + 1), n = 1 + C.below(40);
        vc.insert(vc.begin() + at, Iovec{nullptr, n});
        m += ", piece without memory of length " + str(n) + " at " + str(at);
        if (C.coin()) cap += n;
      }
      arm(C.coin(5));
      if (C.coin(3)) cap += C.len(64);
      else if (C.coin(4) && need) cap = C.below(need);
      Bytes out(cap, 0xA5);
      out.shrink_to_fit();
      C.cur = std::string(aname(a)) + " decrypt (" + m + ")" + fault() + " key=" + hex(key) + " nonce=" + hex(nonce2) + " aad pieces=" + sa.desc + " ciphertext+tag pieces=" + sc.desc + " buffer=" + str(cap) + " operation=" + str(k) + " aad=" + hex(aad2) + " input=" + hex(ct);
      uint8_t dummy;
      auto r = c->Decrypt(nonce2, iov(sa), vc, {cap ? out.data() : (C.coin() ? nullptr : &dummy), cap});
      Bytes want;
      bool failed = struck();
      bool good = !hole && !failed && ref_open(a, key, nonce2, aad2, ct, &want) && cap >= want.size();
      if (good) {
        CHECK(r.GetStatus().ok(), "authentic input rejected: " + std::string(r.GetStatus().message()));
        CHECK(r.GetBytesWritten() == want.size(), "reported " + str(r.GetBytesWritten()) + " bytes instead of " + str(want.size()));
        CHECK(std::equal(want.begin(), want.end(), out.begin()), "plaintext differs");
        for (size_t i = want.size(); i < cap; i++) CHECK(out[i] == 0xA5 || out[i] == 0, "byte beyond the plaintext was written");
      } else {
        CHECK(!r.GetStatus().ok(), "unauthentic or unfitting input accepted");
        for (size_t i = 0; i < cap; i++) CHECK(out[i] == 0 || out[i] == 0xA5, "unauthenticated byte left in the output buffer at " + str(i));
      }
      case_done(str(a) + "/" + m.substr(0, 5) + "/" + sc.desc + str(cap), sc.v.size() > 1);
    }
  }
  return true;
}

static bool p03() {
  for (size_t n = 0; n <= 80; n++)
    for (int aes = 0; aes < 2; aes++) {
#ifdef ORACLE_BORINGSSL
      if (aes) continue;
#endif
      Bytes key = C.bytes(n);
      C.cur = std::string(aes ? "AES-GCM" : "ChaCha") + " create with key length " + str(n);
      auto v = aes ? CreateAesGcmAeadCrypter(key) : CreateChachaPolyAeadCrypter(key);
      bool good = n == 32 || (aes && n == 16);
      CHECK((v.index() == 1) == good, good ? "supported key length refused" : "unsupported key length accepted");
      if (!good) { CHECK(!absl::get<0>(v).ok(), "refused with an OK status"); continue; }
      auto& c = absl::get<1>(v);
      CHECK(c->KeyLength() == n && c->NonceLength() == 12 && c->TagLength() == 16, "wrong lengths reported");
      for (size_t x : {size_t(0), size_t(1), size_t(16384), size_t(1) << 40}) {
        CHECK(c->MaxCiphertextAndTagLength(x) == x + 16, "MaxCiphertextAndTagLength(" + str(x) + ")");
        CHECK(c->MaxPlaintextLength(x + 16) == x, "MaxPlaintextLength(" + str(x + 16) + ")");
      }
      case_done("k" + str(n) + (aes ? "a" : "c"), true);
    }
  while (C.more()) {
    Alg a = pick();
    Bytes key = C.bytes(keylen(a));
    CP c = make(a, key);
    bool enc = C.coin();
    Bytes nonce = C.bytes(12), aad = C.bytes(C.len(60)), pt = C.bytes(C.len(200));
    Bytes in = enc ? pt : ref_seal(a, key, nonce, aad, pt);
    Split sa, si;
    split(sa, aad); split(si, in, 6);
    auto va = iov(sa), vi = iov(si);
    size_t need = enc ? pt.size() + 16 : pt.size();
    size_t cap = need + (C.coin() ? C.len(40) : 0);
    int mode = C.below(7);
    std::string m;
    bool bad = true;
    if (mode == 0) { size_t n; do n = C.coin() ? C.below(40) : C.len(64); while (n == 12); nonce = C.bytes(n); m = "nonce length " + str(n); }
    else if (mode == 1) {
      size_t at = C.below(vi.size() + 1); vi.insert(vi.begin() + at, Iovec{nullptr, 1 + C.below(40)}); m = "null input piece at " + str(at) + " of length " + str(vi[at].iov_len);
      cap = need + 64;
    } else if (mode == 2) {
      size_t at = C.below(va.size() + 1); va.insert(va.begin() + at, Iovec{nullptr, 1 + C.below(40)}); m = "null aad piece at " + str(at);
    } else if (mode == 3) { if (need == 0) continue; cap = C.coin() ? need - 1 : C.below(need); m = "buffer of " + str(cap) + " instead of " + str(need); }
    else if (mode == 4) { if (enc) continue; in.resize(C.below(16)); Split t; Split* ts = new Split; split(*ts, in); vi = iov(*ts); m = "input of only " + str(in.size()); }
    else if (mode == 5) {
      if (vi.empty()) continue;
      size_t at = C.below(vi.size()); if (!vi[at].iov_len) continue;
      vi[at].iov_base = nullptr; m = "input piece " + str(at) + " without memory (pieces " + si.desc + ")"; cap = need;
    } else { bad = false; m = "valid"; }
    Bytes out(cap, 0xA5); out.shrink_to_fit();
    uint8_t dummy[1];
    C.cur = std::string(aname(a)) + (enc ? " encrypt " : " decrypt ") + m + " aad pieces=" + sa.desc + " input pieces=" + si.desc + " buffer=" + str(cap) + " key=" + hex(key) + " nonce=" + hex(nonce) + " input=" + hex(in);
    Iovec o{cap ? (void*)out.data() : (void*)dummy, cap};
    auto r = enc ? c->Encrypt(nonce, va, vi, o) : c->Decrypt(nonce, va, vi, o);
    CHECK(r.GetStatus().ok() == !bad, bad ? "malformed arguments accepted" : "valid arguments rejected: " + std::string(r.GetStatus().message()));
    CHECK(!bad || r.GetBytesWritten() == 0, "error with a nonzero byte count");
    case_done(str(a) + m + si.desc, bad);
  }
  return true;
}

#ifndef ORACLE_BORINGSSL
static bool p04() {
  using namespace s2a::hkdf;
  std::vector<size_t> lens;
  for (int h = 0; h < 2; h++) { size_t d = h ? 48 : 32; for (size_t k = 0; k <= 255; k++) for (int e = -1; e <= 1; e++) { long v = (long)(k * d) + e; if (v >= 0) lens.push_back(v * 2 + h); } lens.push_back((255 * d + 2) * 2 + h); lens.push_back((300 * d) * 2 + h); lens.push_back((257 * d) * 2 + h); lens.push_back((256 * d - 5) * 2 + h); }
  size_t li = 0;
  std::random_shuffle(lens.begin(), lens.end(), [](int n) { return (int)C.below(n); });
  while (C.more()) {
    int h; size_t n;
    if (li < lens.size()) { h = lens[li] & 1; n = lens[li] >> 1; li++; } else { h = C.below(2); n = C.coin(4) ? C.below(255 * (h ? 48 : 32) + 200) : C.len(500); }
    int hv = h;
    if (C.coin(12)) hv = 2 + C.below(250);
    size_t d = h ? 48 : 32;
    Bytes prk = C.bytes(C.coin(8) ? C.below(d + 2) : d + (C.coin(3) ? C.len(200) : 0)), info = C.bytes(C.len(C.coin(20) ? 3000 : 100));
    bool inplace = C.coin(5);
    if (inplace) n = prk.size();
    Bytes out(n, 0x5A);
    out.shrink_to_fit();
    Bytes secret = prk;
    C.cur = "hash " + str(hv) + " output length " + str(n) + (inplace ? " in place" : "") + " prk=" + hex(prk) + " info=" + hex(info);
    arm(C.coin(8));
    C.cur = fault() + C.cur;
    auto st = HkdfDeriveSecret((HashFunction)hv, prk, info, inplace ? prk : out);
    if (struck()) {
      CHECK(!st.ok(), "success reported although the SSL library failed");
      case_done("fault/" + str(n), false);
      continue;
    }
    bool good = hv < 2 && secret.size() >= d && n <= 255 * d;
    CHECK(st.ok() == good, good ? "valid derivation failed: " + std::string(st.message()) : "invalid derivation accepted");
    Bytes& got = inplace ? prk : out;
    CHECK(got.size() == n, "output length changed");
    if (good) CHECK(got == ref_expand(h, secret, info, n), "output differs from HKDF-Expand");
    else CHECK(got == (inplace ? secret : Bytes(n, 0x5A)), "output touched by a rejected request");
    if (!inplace) CHECK(prk == secret, "secret modified");
    case_done(str(hv) + "/" + str(n) + "/" + str(prk.size()), good);
  }
  return true;
}
#endif

bool run_property(const std::string& p) {
  if (p == "P01") return p01();
  if (p == "P02") return p02();
  if (p == "P03") return p03();
#ifndef ORACLE_BORINGSSL
  if (p == "P04") return p04();
#endif
  return false;
}
