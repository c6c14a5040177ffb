// Independent protobuf wire encoder and decoder for the oracles (no upb involved).
#ifndef VERIF_WIRE_H_
#define VERIF_WIRE_H_
#include "common.h"

struct Wire {                       // encoder
  std::string b;
  void vi(uint64_t v) { while (v >= 128) { b += (char)(v | 128); v >>= 7; } b += (char)v; }
  Wire& num(int f, uint64_t v, bool always = false) { if (v || always) { vi(f << 3); vi(v); } return *this; }
  Wire& str(int f, const std::string& s, bool always = false) { if (!s.empty() || always) { vi(f << 3 | 2); vi(s.size()); b += s; } return *this; }
};
struct Field { int no, type; uint64_t v = 0; std::string s; };
struct Parsed {                     // decoder: the fields of one message, in order
  std::vector<Field> f;
  bool ok = true;
  explicit Parsed(const std::string& b) {
    size_t i = 0;
    auto vi = [&]() { uint64_t v = 0; int sh = 0; while (i < b.size()) { uint8_t c = b[i++]; if (sh < 64) v |= (uint64_t)(c & 127) << sh; sh += 7; if (!(c & 128)) return v; } ok = false; return v; };
    while (i < b.size() && ok) {
      uint64_t t = vi();
      Field x;
      x.no = t >> 3;
      x.type = t & 7;
      if (x.type == 0) x.v = vi();
      else if (x.type == 2) { uint64_t n = vi(); if (!ok || n > b.size() - i) { ok = false; break; } x.s = b.substr(i, n); i += n; }
      else { ok = false; break; }
      f.push_back(x);
    }
  }
  std::vector<std::string> all(int no) const { std::vector<std::string> r; for (auto& x : f) if (x.no == no && x.type == 2) r.push_back(x.s); return r; }
  std::vector<uint64_t> nums(int no) const {       // repeated scalar, packed or not
    std::vector<uint64_t> r;
    for (auto& x : f) if (x.no == no) {
      if (x.type == 0) r.push_back(x.v);
      else { size_t i = 0; while (i < x.s.size()) { uint64_t v = 0; int sh = 0; while (i < x.s.size()) { uint8_t c = x.s[i++]; v |= (uint64_t)(c & 127) << sh; sh += 7; if (!(c & 128)) break; } r.push_back(v); } }
    }
    return r;
  }
  bool has(int no) const { for (auto& x : f) if (x.no == no) return true; return false; }
  std::string str(int no) const { std::string r; for (auto& x : f) if (x.no == no && x.type == 2) r = x.s; return r; }
  uint64_t num(int no) const { uint64_t r = 0; for (auto& x : f) if (x.no == no && x.type == 0) r = x.v; return r; }
  bool only(std::initializer_list<int> nos) const { for (auto& x : f) if (std::find(nos.begin(), nos.end(), x.no) == nos.end()) return false; return true; }
};

// Identities: (kind, text), kind 0 none, 1 SPIFFE ID, 2 host name, 3 UID.
typedef std::pair<int, std::string> Ident;
inline Ident ident_of(const std::string& wire) {
  Parsed p(wire);
  CHECK(p.ok, "malformed identity message");
  Ident r{0, ""};
  for (auto& x : p.f) {
    CHECK(x.no == 1 || x.no == 2 || x.no == 4, "unexpected field in an identity");
    r = {x.no == 1 ? 1 : x.no == 2 ? 2 : 3, x.s};
  }
  return r;
}
inline std::string wire_of(const Ident& i) {
  Wire w;
  if (i.first) w.str(i.first == 1 ? 1 : i.first == 2 ? 2 : 4, i.second, true);
  return w.b;
}
inline std::string text(size_t cap = 300) {
  static const char* pool[] = {"", "a", "b", "A", "host", "host.", "spiffe://a/b", "localhost", "x", "aa"};
  if (C.coin(4)) { Bytes b = C.bytes(C.len(cap)); return std::string(b.begin(), b.end()); }
  if (C.coin(8)) return std::string("a\0b", 3);
  if (C.coin(8)) return std::string("\0", 1);
  return pool[C.below(10)];
}
inline std::string show(const std::string& s) {
  bool pr = true;
  for (char c : s) if (c < 32 || c > 126) pr = false;
  return pr && s.size() < 60 ? "'" + s + "'" : "0x" + hex((const uint8_t*)s.data(), std::min<size_t>(s.size(), 400));
}
inline std::string show(const Ident& i) { return str(i.first) + ":" + show(i.second); }
#endif
