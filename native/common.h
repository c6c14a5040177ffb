// Shared parts of the native oracles: deterministic generation, reporting and reference cryptography.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <functional>
#include <set>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

struct Ctx {
  uint64_t s;
  std::vector<long long> lits;
  std::string prop, replay;
  double budget = 10;
  long cases = 0, nontrivial = 0;
  std::set<std::string> distinct;
  std::vector<std::string> samples;
  std::string cur;  // description of the current case
  double t0;
  double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  bool more() { return now() - t0 < budget; }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
  size_t below(size_t n) { return n ? (next() >> 11) % n : 0; }
  bool coin(int one_in = 2) { return below(one_in) == 0; }
  // A length around boundaries and literals of the code under test.
  size_t len(size_t cap) {
    static const int b[] = {0, 0, 1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 21, 22, 23, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
    size_t r;
    switch (below(6)) {
      case 0: case 1: case 2: r = b[below(sizeof b / sizeof *b)]; break;
      case 3: if (!lits.empty()) { long long v = lits[below(lits.size())] + (long long)below(5) - 2; r = v < 0 ? 0 : v; break; }
      // fall through
      case 4: r = below(64); break;
      default: r = below(cap + 1);
    }
    return r > cap ? below(cap + 1) : r;
  }
  uint8_t byte() {
    if (coin(4)) { static const int b[] = {0, 1, 2, 4, 8, 20, 21, 22, 23, 24, 127, 128, 254, 255, 3, 13}; return b[below(16)]; }
    if (!lits.empty() && coin(8)) return (uint8_t)lits[below(lits.size())];
    return next() >> 24;
  }
  Bytes bytes(size_t n) { Bytes v(n); for (auto& x : v) x = byte(); return v; }
};
extern Ctx C;

inline std::string hex(const uint8_t* p, size_t n) {
  std::string s; char b[3];
  for (size_t i = 0; i < n && i < 4096; i++) { snprintf(b, 3, "%02x", p[i]); s += b; }
  if (n > 4096) s += "...";
  return s;
}
inline std::string hex(const Bytes& v) { return hex(v.data(), v.size()); }
inline std::string str(size_t n) { return std::to_string(n); }

[[noreturn]] void fail(const std::string& what);
void case_done(const std::string& key, bool nontrivial);
#define CHECK(c, msg) do { if (!(c)) fail(msg); } while (0)

// Splits data into pieces; each piece gets its own exact heap block (so that ASAN sees overreads).
struct Split {
  std::vector<std::vector<uint8_t>*> own;
  std::vector<std::pair<uint8_t*, size_t>> v;
  std::string desc;
  ~Split() { for (auto p : own) delete p; }
  void add(const uint8_t* p, size_t n) {
    auto b = new std::vector<uint8_t>(p, p + n);
    b->shrink_to_fit();
    own.push_back(b);
    v.push_back({n ? b->data() : (C.coin() ? nullptr : (uint8_t*)1 + 0), n});
    desc += str(n) + ",";
  }
};
void split(Split& out, const Bytes& data, int maxpieces = 8);
std::vector<size_t> cuts(size_t n, int maxpieces);

// Reference cryptography (contiguous, one shot).
enum Alg { A128, A256, CC };
Bytes ref_seal(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& pt);
bool ref_open(Alg a, const Bytes& key, const Bytes& nonce, const Bytes& aad, const Bytes& ct, Bytes* pt);
Bytes ref_expand(bool sha384, const Bytes& prk, const Bytes& info, size_t n);
Bytes ref_label(bool sha384, const Bytes& secret, const std::string& label, size_t n);
#endif
