#include "common.h"
#include <signal.h>
#include <unistd.h>
#ifdef ORACLE_BORINGSSL
#include <openssl/aead.h>
#endif
Ctx C;

void fail(const std::string& what) {
  FILE* f = fopen(C.replay.c_str(), "w");
  std::string t = "property=" + C.prop + "\nviolated: " + what + "\ncase: " + C.cur + "\n";
  if (f) { fputs(t.c_str(), f); fclose(f); }
  printf("FAIL %s\n  case: %s\n", what.c_str(), C.cur.substr(0, 2000).c_str());
  fflush(stdout);
  _exit(1);
}

void case_done(const std::string& key, bool nontrivial) {
  if (++C.cases % 8 == 0) alarm(60);
  if (nontrivial && C.distinct.size() < 2000000) C.distinct.insert(key);
  if (C.samples.size() < 3 && nontrivial && C.cases % 7 == 1) C.samples.push_back(C.cur.substr(0, 300));
}

std::vector<size_t> cuts(size_t n, int maxpieces) {
  std::vector<size_t> r;
  int k = C.below(maxpieces + 1);
  if (k == 0 && n == 0) return r;
  if (k == 0) k = 1;
  std::vector<size_t> at;
  for (int i = 0; i + 1 < k; i++) {
    size_t c;
    switch (C.below(4)) {
      case 0: c = C.below(n + 1); break;
      case 1: c = std::min(n, C.len(64)); break;
      case 2: { size_t d = C.len(32); c = d > n ? 0 : n - d; break; }
      default: c = at.empty() ? 0 : at[C.below(at.size())];
    }
    at.push_back(c);
  }
  std::sort(at.begin(), at.end());
  size_t p = 0;
  for (size_t c : at) { r.push_back(c - p); p = c; }
  r.push_back(n - p);
  return r;
}

void split(Split& out, const Bytes& data, int maxpieces) {
  size_t p = 0;
  for (size_t l : cuts(data.size(), maxpieces)) { out.add(data.data() + p, l); p += l; }
}

#ifdef ORACLE_BORINGSSL
static const EVP_AEAD* alg(Alg a) { return a == A128 ? EVP_aead_aes_128_gcm() : a == A256 ? EVP_aead_aes_256_gcm() : EVP_aead_chacha20_poly1305(); }
Bytes ref_seal(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt) {
  EVP_AEAD_CTX* c = EVP_AEAD_CTX_new(alg(a), key.data(), key.size(), 16);
  Bytes out(pt.size() + 16); size_t n = 0;
  if (!EVP_AEAD_CTX_seal(c, out.data(), &n, out.size(), nonce.data(), nonce.size(), pt.data(), pt.size(), aad.data(), aad.size())) abort();
  EVP_AEAD_CTX_free(c);
  out.resize(n); return out;
}
bool ref_open(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt) {
  EVP_AEAD_CTX* c = EVP_AEAD_CTX_new(alg(a), key.data(), key.size(), 16);
  pt->assign(ct.size(), 0); size_t n = 0;
  bool ok = EVP_AEAD_CTX_open(c, pt->data(), &n, pt->size(), nonce.data(), nonce.size(), ct.data(), ct.size(), aad.data(), aad.size());
  EVP_AEAD_CTX_free(c);
  pt->resize(ok ? n : 0); return ok;
}
#else
static const EVP_CIPHER* alg(Alg a) { return a == A128 ? EVP_aes_128_gcm() : a == A256 ? EVP_aes_256_gcm() : EVP_chacha20_poly1305(); }
Bytes ref_seal(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt) {
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  Bytes out(pt.size() + 16); int n = 0, m = 0; uint8_t z = 0;
  if (!EVP_EncryptInit_ex(c, alg(a), nullptr, key.data(), nonce.data())) abort();
  if (!aad.empty()) EVP_EncryptUpdate(c, nullptr, &n, aad.data(), aad.size());
  n = 0;
  if (!pt.empty()) EVP_EncryptUpdate(c, out.data(), &n, pt.data(), pt.size());
  if (!EVP_EncryptFinal_ex(c, out.data() + n, &m)) abort();
  if (!EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + pt.size())) abort();
  (void)z;
  EVP_CIPHER_CTX_free(c);
  return out;
}
bool ref_open(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt) {
  if (ct.size() < 16) return false;
  EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
  size_t l = ct.size() - 16;
  pt->assign(l, 0); int n = 0, m = 0; uint8_t spare[32];
  if (!EVP_DecryptInit_ex(c, alg(a), nullptr, key.data(), nonce.data())) abort();
  if (!aad.empty()) EVP_DecryptUpdate(c, nullptr, &n, aad.data(), aad.size());
  if (l) EVP_DecryptUpdate(c, pt->data(), &n, ct.data(), l);
  Bytes tag(ct.end() - 16, ct.end());
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, 16, tag.data());
  bool ok = EVP_DecryptFinal_ex(c, spare, &m) > 0;
  EVP_CIPHER_CTX_free(c);
  if (!ok) pt->clear();
  return ok;
}
#endif
Bytes ref_expand(bool sha384, const Bytes& prk, const Bytes& info, size_t n) {
  const EVP_MD* md = sha384 ? EVP_sha384() : EVP_sha256();
  Bytes out, t;
  for (int i = 1; out.size() < n; i++) {
    Bytes m = t;
    m.insert(m.end(), info.begin(), info.end());
    m.push_back(i);
    uint8_t b[64]; unsigned l = 0;
    HMAC(md, prk.data(), prk.size(), m.data(), m.size(), b, &l);
    t.assign(b, b + l);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(n);
  return out;
}
Bytes ref_label(bool sha384, const Bytes& secret, const std::string& label, size_t n) {
  Bytes info; std::string l = "tls13 " + label;
  info.push_back(n >> 8); info.push_back(n & 255); info.push_back(l.size());
  info.insert(info.end(), l.begin(), l.end());
  info.push_back(0);
  return ref_expand(sha384, secret, info, n);
}

bool run_property(const std::string& p);
static void on_signal(int sig) {
  signal(sig, SIG_DFL);
  fail(sig == SIGALRM ? "the operation did not terminate within 60 s" : "the code crashed (signal " + std::to_string(sig) + "; sanitizer report, if any, above)");
}
int main(int argc, char** argv) {
  // oracle PROPERTY SEED SECONDS REPLAY LITERALS...
  C.prop = argv[1];
  C.s = 88172645463325252ULL ^ (strtoull(argv[2], 0, 10) * 0x9E3779B97F4A7C15ULL);
  for (int i = 0; i < 10; i++) C.next();
  C.budget = atof(argv[3]);
  C.replay = argv[4];
  for (int i = 5; i < argc; i++) C.lits.push_back(atoll(argv[i]));
  C.t0 = C.now();
  for (int sig : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(sig, on_signal);
  alarm(60);
  if (!run_property(C.prop)) { printf("NOORACLE\n"); return 3; }
  printf("OK cases=%ld distinct=%zu\n", C.cases, C.distinct.size());
  for (auto& s : C.samples) printf("SAMPLE %s\n", s.c_str());
  return 0;
}
