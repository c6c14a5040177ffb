// Oracles for S2AOptions (P22) and the environment token manager (P25).
#include "common.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_options.h"
#include "src/token_manager/single_token_access_token_manager.h"
using namespace s2a::s2a_options;
using Id = S2AOptions::Identity;
using IT = S2AOptions::IdentityType;
typedef std::pair<int, std::string> Pair;

static std::string text() {
  static const char* pool[] = {"", "a", "b", "A", "host", "host.", "spiffe://a/b", "localhost", "x", "aa"};
  if (C.coin(3)) { Bytes b = C.bytes(C.len(300)); return std::string(b.begin(), b.end()); }
  if (C.coin(8)) return std::string("a\0b", 3);
  if (C.coin(8)) return std::string("a\0c", 3);
  return pool[C.below(10)];
}
static std::string show(const std::string& s) { return "'" + hex((const uint8_t*)s.data(), s.size()) + "'"; }
static Id make(int t, const std::string& s) {
  switch (t) { case 1: return Id::FromSpiffeId(s); case 2: return Id::FromHostname(s); case 3: return Id::FromUid(s); default: return Id::GetEmptyIdentity(); }
}
static IT kind(int t) { return t == 1 ? IT::SPIFFE_ID : t == 2 ? IT::HOSTNAME : t == 3 ? IT::UID : IT::NONE; }

struct Model {
  S2AOptions::TlsVersion mn = S2AOptions::TlsVersion::TLS1_3, mx = S2AOptions::TlsVersion::TLS1_3;
  std::string addr;
  std::vector<S2AOptions::Ciphersuite> cs;
  std::set<Pair> loc, tgt;
};
static std::set<Pair> pairs(const absl::flat_hash_set<Id>& s) {
  std::set<Pair> r;
  for (auto& x : s) {
    Pair p{(int)x.GetIdentityType(), x.GetIdentityString()};
    CHECK(r.insert(p).second, "identity set holds equal identities twice");
    CHECK(s.contains(x) && s.contains(Id(x)), "an identity of the set is not found in it");
    CHECK(std::string(x.GetIdentityCString(), x.GetIdentityString().size()) == x.GetIdentityString(), "C string differs");
  }
  return r;
}
static std::set<Pair> conv(const std::set<Pair>& s) {
  std::set<Pair> r;
  for (auto& p : s) r.insert({(int)kind(p.first), p.second});
  return r;
}
static void same(const S2AOptions& o, const Model& m, const char* which) {
  std::string w(which);
  CHECK(o.min_tls_version() == m.mn && o.max_tls_version() == m.mx, w + ": TLS versions are not the last ones set");
  CHECK(o.s2a_address() == m.addr, w + ": S2A address is not the last one set");
  CHECK(o.supported_ciphersuites() == m.cs, w + ": ciphersuites differ from those added, in order with duplicates");
  CHECK(pairs(o.local_identities()) == conv(m.loc), w + ": local identities differ from those added");
  CHECK(pairs(o.target_identities()) == conv(m.tgt), w + ": target identities differ from those added");
}
static std::string step(S2AOptions& o, Model& m) {
  std::string s = text();
  auto v = C.coin() ? S2AOptions::TlsVersion::TLS1_2 : S2AOptions::TlsVersion::TLS1_3;
  switch (C.below(10)) {
    case 0: o.set_min_tls_version(v); m.mn = v; return "min=" + str((int)v);
    case 1: o.set_max_tls_version(v); m.mx = v; return "max=" + str((int)v);
    case 2: o.set_s2a_address(s); m.addr = s; return "address " + show(s);
    case 3: { auto c = (S2AOptions::Ciphersuite)C.below(3); o.add_supported_ciphersuite(c); m.cs.push_back(c); return "suite " + str((int)c); }
    case 4: o.add_local_spiffe_id(s); m.loc.insert({1, s}); return "local spiffe " + show(s);
    case 5: o.add_local_hostname(s); m.loc.insert({2, s}); return "local host " + show(s);
    case 6: o.add_local_uid(s); m.loc.insert({3, s}); return "local uid " + show(s);
    case 7: o.add_target_spiffe_id(s); m.tgt.insert({1, s}); return "target spiffe " + show(s);
    case 8: o.add_target_hostname(s); m.tgt.insert({2, s}); return "target host " + show(s);
    default: o.add_target_uid(s); m.tgt.insert({3, s}); return "target uid " + show(s);
  }
}
static bool options() {
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) for (int k = 0; k < 30; k++) {
    std::string a = text(), b = C.coin() ? a : text();
    if (k % 3 == 0 && !a.empty()) { b = a; size_t q = C.below(b.size()); if (C.coin()) b[q] ^= 0x20; else b.resize(q); }
    if (!i) a = "";
    if (!j) b = "";
    Id x = make(i, a), y = make(j, b);
    C.cur = "identities (" + str(i) + "," + show(a) + ") and (" + str(j) + "," + show(b) + ")";
    bool e = i == j && a == b;
    CHECK((x == y) == e && (y == x) == e, e ? "equal identities compare unequal" : "different identities compare equal");
    CHECK(x.GetIdentityType() == kind(i) && x.GetIdentityString() == a, "identity does not report what it was made from");
    CHECK(std::string(x.GetIdentityCString(), a.size()) == a && x.GetIdentityCString()[a.size()] == 0, "identity C string");
    if (e) CHECK(absl::Hash<Id>()(x) == absl::Hash<Id>()(y), "equal identities hash differently");
    Id z(x);
    CHECK(z == x && x == z && z.GetIdentityType() == kind(i) && z.GetIdentityString() == a, "copied identity differs");
    y = x;
    CHECK(y == x && y.GetIdentityType() == kind(i) && y.GetIdentityString() == a, "assigned identity differs");
    case_done(C.cur, true);
  }
  while (C.more()) {
    auto o = std::unique_ptr<S2AOptions>(new S2AOptions);
    Model m;
    std::string h;
    C.cur = "fresh options";
    same(*o, m, "fresh options");
    std::vector<std::pair<std::unique_ptr<S2AOptions>, Model>> all;
    all.emplace_back(std::move(o), m);
    int n = 1 + C.below(25);
    for (int k = 0; k < n; k++) {
      size_t w = C.below(all.size());
      if (C.coin(6) && all.size() < 5) {
        h += " copy" + str(w);
        C.cur = h;
        auto c = all[w].first->Copy();
        CHECK(c != nullptr, "null copy");
        all.emplace_back(std::move(c), all[w].second);
      } else if (C.coin(25) && all.size() > 1) {
        h += " destroy" + str(w);
        C.cur = h;
        all.erase(all.begin() + w);
      } else {
        h += " " + str(w) + ":" + step(*all[w].first, all[w].second);
      }
      C.cur = h;
      for (auto& x : all) same(*x.first, x.second, all.size() > 1 ? "copy or original" : "options");
    }
    case_done(h, n > 2);
  }
  return true;
}

static bool token() {
  using namespace s2a::token_manager;
  const char* var = "S2A_ACCESS_TOKEN";
  while (C.more()) {
    bool set = !C.coin(4);
    Bytes b = C.bytes(C.coin(6) ? C.len(5000) : C.len(200));
    std::string v;
    for (auto x : b) if (x) v += (char)x;
    if (C.coin(8)) v = "";
    if (set) setenv(var, v.c_str(), 1); else unsetenv(var);
    std::string h = set ? "created with variable " + show(v) : "created with the variable unset";
    C.cur = h;
    std::unique_ptr<AccessTokenManagerInterface> m;
    if (C.coin()) {
      auto s = BuildAccessTokenManager();
      CHECK(s.ok() && s.value() != nullptr, "factory failed");
      m = std::move(s.value());
    } else m.reset(new SingleTokenAccessTokenManager);
    int n = 1 + C.below(8);
    for (int k = 0; k < n; k++) {
      std::string w = text(), u;
      for (char c : w) if (c) u += c;
      switch (C.below(4)) {
        case 0: setenv(var, u.c_str(), 1); h += " setenv " + show(u); break;
        case 1: unsetenv(var); h += " unsetenv"; break;
        default: break;
      }
      int t = C.below(5);
      Id id = make(t, w);
      h += t == 4 ? " default" : " token(" + str(t) + "," + show(w) + ")";
      C.cur = h;
      auto r = t == 4 ? m->GetDefaultToken() : m->GetToken(id);
      CHECK(r.ok() == set, set ? "no token although the variable was set at creation" : "token although the variable was unset at creation");
      if (set) CHECK(r.value() == v, "token " + show(r.value()) + " is not the value at creation");
      else CHECK(r.status().code() == absl::StatusCode::kNotFound, "error is not not-found");
      // the result belongs to the caller: consuming it must not affect later answers
      if (set && C.coin()) { std::string taken = std::move(r.value()); taken += "x"; }
    }
    case_done(h.substr(0, 300), n > 1);
  }
  unsetenv(var);
  return true;
}

bool run_property(const std::string& p) {
  if (p == "P22") return options();
  if (p == "P25") return token();
  return false;
}
