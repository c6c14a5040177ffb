// Oracles for context serialisation (P20), conversions (P21) and ticket requests (P23).
#include "wire.h"
#include "include/s2a_context.h"
#include "src/handshaker/s2a_util.h"
#include "src/record_protocol/s2a_crypter_util.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
using namespace s2a::s2a_options;
using namespace s2a::s2a_context;
namespace U = s2a::s2a_util;
using Id = S2AOptions::Identity;
using IT = S2AOptions::IdentityType;
using TV = S2AOptions::TlsVersion;
using CS = S2AOptions::Ciphersuite;

static Id make(const Ident& i) {
  switch (i.first) { case 1: return Id::FromSpiffeId(i.second); case 2: return Id::FromHostname(i.second); case 3: return Id::FromUid(i.second); default: return Id::GetEmptyIdentity(); }
}
static Ident back(const Id& i) {
  IT t = i.GetIdentityType();
  return {t == IT::SPIFFE_ID ? 1 : t == IT::HOSTNAME ? 2 : t == IT::UID ? 3 : 0, i.GetIdentityString()};
}
static Ident ident() { int k = C.below(4); return {k, k ? text() : ""}; }
static const TV TVS[] = {TV::TLS1_2, TV::TLS1_3};
static const CS CSS[] = {CS::AES_128_GCM_SHA256, CS::AES_256_GCM_SHA384, CS::CHACHA20_POLY1305_SHA256};
// the wire values (common.proto)
static const int WTV[] = {s2a_proto_TLS1_2, s2a_proto_TLS1_3};
static const int WCS[] = {s2a_proto_AES_128_GCM_SHA256, s2a_proto_AES_256_GCM_SHA384, s2a_proto_CHACHA20_POLY1305_SHA256};

static std::string str_of(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }

static bool p20() {
  while (C.more()) {
    std::string proto = text(), pf = text(), lf = text();
    Ident peer = ident(), local = ident();
    int tv = C.below(2), cs = C.below(3);
    bool res = C.coin();
    int bad = C.coin(6) ? 1 + C.below(2) : 0;
    TV v = bad == 1 ? (TV)(2 + C.below(50)) : TVS[tv];
    CS c = bad == 2 ? (CS)(3 + C.below(50)) : CSS[cs];
    C.cur = "protocol " + show(proto) + " version " + str((int)v) + " suite " + str((int)c) + " peer " + show(peer) + " local " + show(local) + " fingerprints " + show(pf) + "," + show(lf) + " resumed " + str(res);
    S2AContext x(proto, v, c, make(peer), make(local), pf, lf, res);
    auto s = x.GetSerializedContext();
    if (bad) {
      CHECK(s.index() == 0 && !absl::get<0>(s).ok(), "a context with an unsupported version or ciphersuite was serialised");
      case_done("bad" + str(bad), true);
      continue;
    }
    CHECK(s.index() == 1 && absl::get<1>(s) != nullptr, "serialising a valid context failed");
    std::string w = str_of(*absl::get<1>(s));
    Parsed p(w);
    CHECK(p.ok && p.only({1, 2, 3, 4, 5, 6, 7, 8}), "serialised context is not a well-formed message");
    CHECK(p.str(1) == proto && (int)p.num(2) == WTV[tv] && (int)p.num(3) == WCS[cs] && p.str(6) == pf && p.str(7) == lf && (p.num(8) != 0) == res, "serialised fields differ from the context");
    CHECK(ident_of(p.str(4)) == peer && ident_of(p.str(5)) == local, "serialised identities differ");
    char* q = (char*)malloc(w.size() ? w.size() : 1);
    memcpy(q, w.data(), w.size());
    auto y = GetS2AContextFromSerializedContext(q, w.size());
    free(q);    // the context must not point into the caller's buffer
    CHECK(y.ok() && *y != nullptr, "parsing the serialised context failed");
    S2AContext& z = **y;
    CHECK(z.ApplicationProtocol() == proto, "application protocol differs after the round trip");
    CHECK(z.TlsVersion() == v && z.Ciphersuite() == c, "version or ciphersuite differs after the round trip");
    CHECK(back(z.PeerIdentity()) == peer, "peer identity differs after the round trip");
    CHECK(back(z.LocalIdentity()) == local, "local identity differs after the round trip");
    CHECK(z.PeerCertFingerprint() == pf && z.LocalCertFingerprint() == lf, "fingerprints differ after the round trip");
    CHECK(z.IsHandshakeResumed() == res, "resumption flag differs after the round trip");
    // a hand-encoded context, possibly with unsupported values
    uint64_t wv = C.coin(3) ? C.below(40) : WTV[tv], wc = C.coin(3) ? C.below(40) : WCS[cs];
    Wire m;
    m.str(1, proto).num(2, wv).num(3, wc);
    if (peer.first || C.coin()) m.str(4, wire_of(peer), true);
    if (local.first || C.coin()) m.str(5, wire_of(local), true);
    m.str(6, pf).str(7, lf).num(8, res);
    C.cur += " wire version " + str(wv) + " suite " + str(wc);
    auto t = GetS2AContextFromSerializedContext(m.b.data(), m.b.size());
    bool okv = wv == (uint64_t)WTV[0] || wv == (uint64_t)WTV[1], okc = wc == (uint64_t)WCS[0] || wc == (uint64_t)WCS[1] || wc == (uint64_t)WCS[2];
    CHECK(t.ok() == (okv && okc), okv && okc ? "a valid context was rejected" : "a context with an unsupported version or ciphersuite was parsed into something else");
    if (t.ok()) {
      CHECK((*t)->TlsVersion() == TVS[wv == (uint64_t)WTV[0] ? 0 : 1], "parsed TLS version differs");
      CHECK((*t)->Ciphersuite() == CSS[wc == (uint64_t)WCS[0] ? 0 : wc == (uint64_t)WCS[1] ? 1 : 2], "parsed ciphersuite differs");
      CHECK(back((*t)->PeerIdentity()) == peer && back((*t)->LocalIdentity()) == local, "parsed identities differ");
    }
    if (C.coin(4) && w.size()) {      // truncated or garbled input must not crash
      size_t n = C.below(w.size());
      char* g = (char*)malloc(n ? n : 1);
      memcpy(g, w.data(), n);
      if (n && C.coin()) g[C.below(n)] ^= 1 << C.below(8);
      (void)GetS2AContextFromSerializedContext(g, n);
      free(g);
    }
    case_done(str(peer.first) + str(local.first) + str(proto.size()) + "," + str(pf.size()) + "," + str(lf.size()) + "," + str(tv) + str(cs) + str(res), true);
  }
  return true;
}

static bool p21() {
  while (C.more()) {
    int x = C.coin() ? (int)C.below(8) - 2 : C.coin() ? (int)C.next() : (int)C.below(70000);
    C.cur = "value " + std::to_string(x);
    {
      auto r = U::ConvertTlsVersionToProto((TV)x);
      bool good = x == (int)TV::TLS1_2 || x == (int)TV::TLS1_3;
      CHECK((r.index() == 1) == good, "TLS version to wire: wrong outcome");
      if (good) CHECK((int)absl::get<1>(r) == (x == (int)TV::TLS1_2 ? WTV[0] : WTV[1]), "TLS version maps to another version");
      else CHECK(!absl::get<0>(r).ok(), "unsupported TLS version yields an OK status");
      auto q = U::ConvertFromProtoToTlsVersion((s2a_proto_TLSVersion)x);
      good = x == WTV[0] || x == WTV[1];
      CHECK((q.index() == 1) == good, "TLS version from wire: wrong outcome");
      if (good) CHECK(absl::get<1>(q) == TVS[x == WTV[0] ? 0 : 1], "wire TLS version maps to another version");
      else CHECK(!absl::get<0>(q).ok(), "unsupported wire TLS version yields an OK status");
    }
    {
      auto r = U::ConvertCiphersuiteToProto((CS)x);
      int k = x == (int)CSS[0] ? 0 : x == (int)CSS[1] ? 1 : x == (int)CSS[2] ? 2 : -1;
      CHECK((r.index() == 1) == (k >= 0), "ciphersuite to wire: wrong outcome");
      if (k >= 0) CHECK((int)absl::get<1>(r) == WCS[k], "ciphersuite maps to another suite");
      else CHECK(!absl::get<0>(r).ok(), "unsupported ciphersuite yields an OK status");
      auto q = U::ConvertFromProtoToCiphersuite((s2a_proto_Ciphersuite)x);
      int j = x == WCS[0] ? 0 : x == WCS[1] ? 1 : x == WCS[2] ? 2 : -1;
      CHECK((q.index() == 1) == (j >= 0), "ciphersuite from wire: wrong outcome");
      if (j >= 0) CHECK(absl::get<1>(q) == CSS[j], "wire ciphersuite maps to another suite");
      else CHECK(!absl::get<0>(q).ok(), "unsupported wire ciphersuite yields an OK status");
      auto h = (s2a::hkdf::HashFunction)99;
      bool hok = s2a::CiphersuiteToHashFunction((CS)x, &h).ok();
      CHECK(hok == (k >= 0), "hash selection: wrong outcome");
      if (k >= 0) CHECK(h == (k == 1 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function), "ciphersuite selects the wrong hash");
    }
    Ident i = ident();
    C.cur += " identity " + show(i);
    upb::Arena arena;
    Id src = make(i);
    auto r = U::ConvertIdentityToProto(arena.ptr(), src);
    CHECK(r.index() == 1, "identity conversion failed");
    s2a_proto_Identity* pi = absl::get<1>(r);
    CHECK((pi != nullptr) == (i.first != 0), "identity converts to the wrong presence");
    if (pi) {
      size_t n;
      char* b = s2a_proto_Identity_serialize(pi, arena.ptr(), &n);
      CHECK(ident_of(std::string(b, n)) == i, "wire identity differs");
    }
    CHECK(back(U::ConvertFromProtoToIdentity(pi)) == i, "identity differs after the round trip");
    auto e = U::ConvertIdentityToProto(nullptr, src);
    CHECK(e.index() == 0 && !absl::get<0>(e).ok(), "conversion without an arena is not an error");
    std::string w = wire_of(i);
    s2a_proto_Identity* q = s2a_proto_Identity_parse(w.data(), w.size(), arena.ptr());
    CHECK(q && back(U::ConvertFromProtoToIdentity(q)) == i, "identity parsed from the wire differs");
    CHECK(U::ParseUpbStrview(upb_strview_make(i.second.data(), i.second.size())) == i.second, "string view not copied exactly");
    case_done(std::to_string(x % 100) + show(i).substr(0, 12), true);
  }
  return true;
}

static bool p23() {
  using namespace s2a::s2a_ticket_sender;
  while (C.more()) {
    uint64_t id = C.coin() ? C.next() : C.below(300);
    Ident i = ident();
    size_t n = C.coin(10) ? 6 + C.below(30) : C.below(6);
    auto t = absl::make_unique<std::vector<std::unique_ptr<std::string>>>();
    std::vector<std::string> want;
    for (size_t k = 0; k < n; k++) { want.push_back(text(20000)); t->push_back(absl::make_unique<std::string>(want.back())); }
    bool null = C.coin(10);
    if (null) t = nullptr;
    C.cur = "connection " + std::to_string(id) + " identity " + show(i) + (null ? " no list" : " tickets");
    for (auto& s : want) C.cur += " " + show(s).substr(0, 60);
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    Id lid = make(i);
    bool ok = PrepareResumptionTicketReq(id, lid, t, arena.ptr(), req);
    CHECK(ok == (!null && i.first != 0), ok ? "a request was produced without a ticket list or identity" : "request preparation failed");
    if (ok) {
      size_t len = 0;
      char* b = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
      Parsed p(std::string(b, len));
      CHECK(p.ok && p.only({4}) && p.all(4).size() == 1, "the request is not exactly a resumption ticket request");
      Parsed q(p.str(4));
      CHECK(q.ok && q.only({1, 2, 3}), "unexpected fields in the ticket request");
      CHECK(q.num(2) == id, "connection id is " + std::to_string(q.num(2)));
      CHECK(q.all(3).size() == 1 && ident_of(q.str(3)) == i, "local identity differs");
      CHECK(q.all(1) == want, "tickets differ from those given (" + str(q.all(1).size()) + " sent)");
    }
    case_done(str(i.first) + "," + str(n) + "," + str(null) + "," + str(want.empty() ? 0 : want[0].size()), n > 0);
  }
  return true;
}

bool run_property(const std::string& p) { return p == "P20" ? p20() : p == "P21" ? p21() : p == "P23" ? p23() : false; }
