// Oracles for the half connection (P05-P07).
#include "refs.h"
#include "src/record_protocol/s2a_half_connection.h"
using namespace s2a::record_protocol;
using s2a::aead_crypter::Iovec;
using Suite = s2a::s2a_options::S2AOptions::Ciphersuite;

// Fault injection at the crypto library boundary (linked with -Wl,--wrap).
static long g_fail_at = -1, g_calls = 0;
static bool inject() { return g_fail_at >= 0 && g_calls++ == g_fail_at; }
extern "C" {
int __real_HMAC_Init_ex(HMAC_CTX*, const void*, int, const EVP_MD*, ENGINE*);
int __wrap_HMAC_Init_ex(HMAC_CTX* c, const void* k, int l, const EVP_MD* m, ENGINE* e) { return inject() ? 0 : __real_HMAC_Init_ex(c, k, l, m, e); }
int __real_HMAC_Final(HMAC_CTX*, unsigned char*, unsigned int*);
int __wrap_HMAC_Final(HMAC_CTX* c, unsigned char* o, unsigned int* l) { return inject() ? 0 : __real_HMAC_Final(c, o, l); }
int __real_HMAC_Update(HMAC_CTX*, const unsigned char*, size_t);
int __wrap_HMAC_Update(HMAC_CTX* c, const unsigned char* d, size_t l) { return inject() ? 0 : __real_HMAC_Update(c, d, l); }
int __real_EVP_DecryptInit_ex(EVP_CIPHER_CTX*, const EVP_CIPHER*, ENGINE*, const unsigned char*, const unsigned char*);
int __wrap_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i) { return inject() ? 0 : __real_EVP_DecryptInit_ex(c, t, e, k, i); }
int __real_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX*, int, int, void*);
int __wrap_EVP_CIPHER_CTX_ctrl(EVP_CIPHER_CTX* c, int t, int a, void* p) { return inject() ? 0 : __real_EVP_CIPHER_CTX_ctrl(c, t, a, p); }
}

static std::vector<Iovec> iov(const Split& s) {
  std::vector<Iovec> r;
  for (auto& p : s.v) r.push_back({p.second ? (void*)p.first : nullptr, p.second});
  r.shrink_to_fit();  // so that a read past the last piece is seen
  return r;
}

// All three properties are one history check; the property chosen biases the histories.
static bool run(const std::string& prop) {
  while (C.more()) {
    g_fail_at = -1;
    int cs = C.below(3);
    int given = cs;
    if (C.coin(15)) given = 3 + C.below(200);
    HalfRef r;
    r.alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
    r.h384 = cs == 1;
    size_t want = cs == 1 ? 48 : 32;
    size_t sl = C.coin(12) ? (C.coin() ? (want == 32 ? 48 : 32) : C.len(100)) : want;
    r.secret = C.bytes(sl);
    r.seq = seqno();
    std::string h = "ciphersuite " + str(given) + " secret " + hex(r.secret) + " first sequence " + std::to_string(r.seq) + ":";
    g_calls = 0;
    g_fail_at = C.coin(12) ? (long)C.below(16) : -1;
    if (g_fail_at >= 0) h += " (library call " + str(g_fail_at) + " of the creation fails)";
    C.cur = h;
    auto v = S2AHalfConnection::Create((Suite)given, r.seq, r.secret);
    bool struck = g_fail_at >= 0 && g_calls > g_fail_at;
    g_fail_at = -1;
    if (struck) {
      CHECK(v.index() == 0 && !absl::get<0>(v).ok(), "creation succeeded although the library failed while deriving the keys");
      case_done(h.substr(0, 20) + "fault", false);
      continue;
    }
    bool good = given < 3 && sl == want;
    CHECK((v.index() == 1) == good, good ? "creation failed: " + std::string(absl::get<0>(v).message()) : "creation with invalid arguments succeeded");
    if (!good) { CHECK(!absl::get<0>(v).ok(), "failed creation reports OK"); case_done(h.substr(0, 20) + str(sl), false); continue; }
    auto& c = absl::get<1>(v);
    CHECK(c->TagLength() == 16, "tag length");
    r.derive();
    int n = 1 + C.below(prop == "P05" ? 3 : 14);
    for (int k = 0; k < n; k++) {
      int what = C.below(prop == "P07" ? 4 : 6);
      if (what == 0 || (what == 3 && prop == "P07")) {
        bool inj = C.coin(prop == "P07" ? 4 : 10);
        g_calls = 0;
        g_fail_at = inj ? (long)C.below(24) : -1;
        auto st = c->UpdateKey();
        bool hit = inj && g_calls > g_fail_at;
        h += " update" + (inj ? "(library call " + str(g_fail_at) + (hit ? " failed)" : " would fail)") : std::string());
        C.cur = h;
        g_fail_at = -1;
        if (hit) {
          CHECK(!st.ok(), "key update reported success although the library failed");
          r.dead = true;
        } else {
          CHECK(st.ok() || r.dead, "key update failed: " + std::string(st.message()));
          if (!r.dead) r.update();
        }
        if (r.dead && !hit && st.ok()) {}  // stays unusable whatever is returned
        continue;
      }
      bool enc = what % 2;
      Bytes aad = C.bytes(C.len(40)), pt = C.bytes(C.len(100));
      bool corrupt = !enc && C.coin(4), small = C.coin(10);
      bool us = r.usable();
      uint64_t q = r.seq;
      Bytes nonce = us ? r.nonce() : r.iv;
      Bytes ct = ref_seal(r.alg, r.key, nonce, aad, pt);
      Bytes in = enc ? pt : ct;
      if (corrupt) in[C.below(in.size())] ^= 0x10;
      Split sa, si;
      split(sa, aad, 3); split(si, in, 4);
      size_t need = enc ? ct.size() : pt.size();
      if (small && need == 0) small = false;
      Bytes out(small ? C.below(need) : need + C.below(8), 0xA5);
      h += std::string(enc ? " encrypt" : " decrypt") + "(" + str(pt.size()) + " bytes" + (corrupt ? ",corrupted" : "") + (small ? ",buffer too small" : "") + ")";
      C.cur = h + " [sequence " + std::to_string(q) + (us ? "" : ", unusable") + "]";
      uint8_t dummy;
      Iovec o{out.empty() ? &dummy : out.data(), out.size()};
      auto st = enc ? c->Encrypt(iov(sa), iov(si), o) : c->Decrypt(iov(sa), iov(si), o);
      if (!us || small || corrupt) {
        CHECK(!st.GetStatus().ok(), !us ? "operation succeeded on an unusable direction" : "operation that must fail succeeded");
        CHECK(st.GetBytesWritten() == 0, "failed operation reports bytes");
      } else {
        CHECK(st.GetStatus().ok(), "operation failed (wrong key, IV or sequence number?): " + std::string(st.GetStatus().message()));
        CHECK(st.GetBytesWritten() == need, "wrong byte count");
        CHECK(std::equal(enc ? ct.begin() : pt.begin(), enc ? ct.end() : pt.end(), out.begin()), "output is not that of the expected key, IV and sequence number");
      }
      CHECK(c->TagLength() == 16, "tag length");
    }
    case_done(h.substr(0, 14) + h.substr(h.find(':')), n > 1);
  }
  return true;
}

bool run_property(const std::string& p) { return (p == "P05" || p == "P06" || p == "P07") && run(p); }
