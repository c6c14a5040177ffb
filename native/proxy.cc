// Oracle for the handshake proxy (P17-P19): histories of calls against a reference, through the public interface
// and an independent protobuf codec.
#include "refs.h"
#include "wire.h"
#include "include/s2a_proxy.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include <map>
using namespace s2a::s2a_options;
using s2a::s2a_proxy::S2AProxy;
using s2a::aead_crypter::Iovec;
using Id = S2AOptions::Identity;
using IT = S2AOptions::IdentityType;
using TV = S2AOptions::TlsVersion;
using CS = S2AOptions::Ciphersuite;

// Records what the frame protector hands to the ticket sender.
struct Sent { std::string url; uint64_t id; Ident who; size_t n; };
static std::vector<Sent> g_sent;
static Ident back(const Id& i) {
  IT t = i.GetIdentityType();
  return {t == IT::SPIFFE_ID ? 1 : t == IT::HOSTNAME ? 2 : t == IT::UID ? 3 : 0, i.GetIdentityString()};
}
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  g_sent.push_back({o.handshaker_service_url, o.connection_id, back(o.local_identity), o.tickets ? o.tickets->size() : 0});
  return nullptr;
}

static Id make(const Ident& i) {
  switch (i.first) { case 1: return Id::FromSpiffeId(i.second); case 2: return Id::FromHostname(i.second); case 3: return Id::FromUid(i.second); default: return Id::GetEmptyIdentity(); }
}
static Ident ident() { int k = 1 + C.below(3); return {k, text(80)}; }

struct Tokens : s2a::token_manager::AccessTokenManagerInterface {
  std::map<Ident, std::string>* t;          // absent: cannot be fetched; Ident{0,""} is the default token
  absl::StatusOr<std::string> get(const Ident& i) {
    auto it = t->find(i);
    if (it == t->end()) return absl::NotFoundError("no token");
    return it->second;
  }
  absl::StatusOr<std::string> GetDefaultToken() override { return get({0, ""}); }
  absl::StatusOr<std::string> GetToken(const Id& i) override { return get(back(i)); }
  std::string DebugName() const override { return "oracle"; }
};

static Bytes take(std::vector<Iovec>& v) {     // concatenates and frees what the proxy's own allocator produced
  Bytes r;
  for (auto& x : v) { uint8_t* b = (uint8_t*)x.iov_base; r.insert(r.end(), b, b + x.iov_len); delete[] b; }
  v.clear();
  return r;
}

typedef std::multiset<std::pair<Ident, std::string>> Auth;   // identity (0 = no identity) with its token

struct World {
  std::string prop, h;
  bool client, tm;
  std::string proto, host, addr;
  int mn, mx;
  std::vector<int> suites;
  std::set<Ident> loc, tgt;
  std::map<Ident, std::string> tokens;
  std::unique_ptr<S2AProxy> p;
  // reference state
  bool first = true, finished = false, have_sel = false, ctx_taken = false, fp_made = false;
  Ident sel;
  std::map<Ident, std::string> cache;
  struct R { int tv, cs; std::string ik, ok, proto, pf, lf; uint64_t iseq, oseq, cid; Ident peer, local; bool resumed; } res;
  void log(const std::string& s) { h += "; " + s; C.cur = h; }

  void create() {
    client = C.coin();
    tm = C.coin(3) ? false : true;
    proto = text(); host = text(); addr = "s2a" + text();
    mn = C.below(2); mx = C.below(2);
    if (C.coin(20)) mn = 2 + C.below(9);
    if (C.coin(20)) mx = 2 + C.below(9);
    auto o = absl::make_unique<S2AOptions>();
    o->set_min_tls_version((TV)mn);
    o->set_max_tls_version((TV)mx);
    o->set_s2a_address(addr);
    for (size_t k = C.below(5); k; k--) { suites.push_back(C.coin(25) ? 3 + C.below(9) : C.below(3)); o->add_supported_ciphersuite((CS)suites.back()); }
    auto add = [&](std::set<Ident>& s, bool local, size_t n) {
      for (; n; n--) {
        Ident i = ident();
        s.insert(i);
        switch (i.first) {
          case 1: local ? o->add_local_spiffe_id(i.second) : o->add_target_spiffe_id(i.second); break;
          case 2: local ? o->add_local_hostname(i.second) : o->add_target_hostname(i.second); break;
          default: local ? o->add_local_uid(i.second) : o->add_target_uid(i.second);
        }
      }
    };
    add(loc, true, client ? (C.coin(12) ? 2 : C.below(2)) : C.below(4));
    add(tgt, false, C.below(4));
    retoken();
    h = std::string(client ? "client" : "server") + " protocol " + show(proto) + " host " + show(host) + " versions " + str(mn) + "," + str(mx) + " suites";
    for (int s : suites) h += " " + str(s);
    h += " local";
    for (auto& i : loc) h += " " + show(i);
    h += " target";
    for (auto& i : tgt) h += " " + show(i);
    C.cur = h;
    std::unique_ptr<Tokens> t;
    if (tm) { t = absl::make_unique<Tokens>(); t->t = &tokens; }
    S2AProxy::S2AProxyOptions po{[](const std::string&) {}, client, proto, host, std::move(o), nullptr, nullptr, std::move(t)};
    p = S2AProxy::Create(po);
    CHECK(p != nullptr, "creation failed");
  }
  void retoken() {                    // changes which tokens can be fetched
    tokens.clear();
    std::string d = "tokens:";
    if (!C.coin(3)) { tokens[{0, ""}] = "default" + text(20); d += " default"; }
    for (auto& i : loc) if (!C.coin(3)) { tokens[i] = text(40) + "/" + i.second; d += " " + show(i); }
    if (have_sel && !C.coin(3)) { tokens[sel] = "sel" + text(40); d += " sel " + show(sel); }
    if (!h.empty()) log(d);
  }

  // The entries the next request has to carry.
  Auth want() {
    if (tm) {
      bool done = false;
      if (have_sel) {
        if (cache.size() == 1 && cache.count(sel)) done = true;
        else if (tokens.count(sel)) { cache.clear(); cache[sel] = tokens[sel]; done = true; }
      }
      if (!done) {
        for (auto& i : loc) if (!cache.count(i) && tokens.count(i)) cache[i] = tokens[i];
        if (loc.empty() && tokens.count({0, ""})) cache[{0, ""}] = tokens[{0, ""}];
      }
    }
    Auth a;
    for (auto& e : cache) a.insert(e);
    return a;
  }
  void auth(const Parsed& req) {
    Auth w = want(), g;
    for (auto& e : req.all(5)) {
      Parsed m(e);
      CHECK(m.ok && m.only({1, 2}), "malformed authentication entry");
      g.insert({m.has(1) ? ident_of(m.str(1)) : Ident{0, ""}, m.str(2)});
    }
    if (g != w) {
      std::string s = "authentication entries are";
      for (auto& e : g) s += " (" + show(e.first) + " token " + show(e.second) + ")";
      s += " instead of";
      for (auto& e : w) s += " (" + show(e.first) + " token " + show(e.second) + ")";
      fail(s);
    }
  }
  static std::unique_ptr<S2AProxy::Buffer> buf(const std::string& s) { return absl::make_unique<S2AProxy::Buffer>(s.begin(), s.end()); }

  void to_s2a() {
    int mode = C.below(6);
    if (first && client && C.coin()) mode = 1;
    bool null = mode == 0;
    std::string in = null || mode == 1 ? "" : text(20000);
    log("GetBytesForS2A(" + (null ? std::string("null") : show(in)) + ")");
    auto r = p->GetBytesForS2A(null ? nullptr : buf(in));
    bool err;
    if (first) {
      err = client && !in.empty();
      if (mn > 1 || mx > 1) err = true;
      for (int s : suites) if (s > 2) err = true;
      if (client && loc.size() > 1) err = true;
    } else err = in.empty();
    if (err) {
      CHECK(!r.status.ok(), "no error although the call is not allowed or the configuration cannot be expressed");
      CHECK(r.buffer == nullptr || r.buffer->empty(), "an error came with a message");
      CHECK(r.bytes_consumed == 0, "an error reports consumed bytes");
      return;
    }
    CHECK(r.status.ok(), "request creation failed: " + std::string(r.status.message()));
    CHECK(r.buffer != nullptr, "no message");
    Parsed q(std::string(r.buffer->begin(), r.buffer->end()));
    CHECK(q.ok, "malformed request");
    if (first) {
      first = false;
      CHECK(q.only({client ? 1 : 2, 5}) && q.all(client ? 1 : 2).size() == 1, "the first message is not exactly the start for this role");
      Parsed s(q.str(client ? 1 : 2));
      CHECK(s.ok, "malformed start");
      CHECK(s.all(1) == std::vector<std::string>{proto}, "application protocol differs");
      CHECK((int)s.num(2) == mn && (int)s.num(3) == mx, "TLS version bounds are " + str(s.num(2)) + "," + str(s.num(3)));
      std::vector<uint64_t> ws(suites.begin(), suites.end());
      CHECK(s.nums(4) == ws, "ciphersuites differ or are out of order");
      std::multiset<Ident> l, t, wl(loc.begin(), loc.end()), wt(tgt.begin(), tgt.end());
      if (client) {
        for (auto& e : s.all(5)) t.insert(ident_of(e));
        for (auto& e : s.all(6)) l.insert(ident_of(e));
        CHECK(s.only({1, 2, 3, 4, 5, 6, 7}), "unexpected fields in the client start");
        CHECK(t == wt, "target identities differ");
        CHECK(s.str(7) == host, "target name differs");
      } else {
        for (auto& e : s.all(5)) l.insert(ident_of(e));
        CHECK(s.only({1, 2, 3, 4, 5, 6}), "unexpected fields in the server start");
        CHECK(s.str(6) == in, "the peer's bytes differ in the server start");
      }
      CHECK(l == wl, "local identities differ");
    } else {
      CHECK(q.only({3, 5}) && q.all(3).size() == 1, "a later message is not exactly a next message");
      Parsed s(q.str(3));
      CHECK(s.ok && s.only({1}) && s.str(1) == in, "the peer's bytes differ in the next message");
    }
    auth(q);
  }

  void to_peer() {
    Wire m;
    std::string out = text(20000), d = "GetBytesForPeer(";
    uint64_t consumed = C.coin() ? C.below(70000) : C.next() & 0xffffffff;
    bool err = false;
    int mode = C.below(12);
    if (mode == 0) {
      bool null = C.coin();
      log(d + "nothing)");
      auto r = p->GetBytesForPeer(null ? nullptr : buf(""));
      CHECK(!r.status.ok() && r.bytes_consumed == 0 && (!r.buffer || r.buffer->empty()), "no bytes from S2A is not an error");
      return;
    }
    if (mode == 1) {
      std::string g(1 + C.below(3), (char)0xff);
      log(d + "malformed)");
      auto r = p->GetBytesForPeer(buf(g));
      CHECK(!r.status.ok(), "malformed response accepted");
      after(false);
      return;
    }
    Ident chosen = ident();
    if (!loc.empty() && C.coin()) { auto it = loc.begin(); std::advance(it, C.below(loc.size())); chosen = *it; }
    bool with_sel = C.coin(4);
    if (with_sel) { m.str(1, wire_of(chosen), true); d += "local identity " + show(chosen) + " "; }
    m.str(2, out).num(3, consumed);
    R r2;
    bool with_res = prop == "P19" ? C.coin() : C.coin(6);
    int broken = with_res && C.coin(3) ? 1 + C.below(4) : 0;
    if (with_res) {
      r2.tv = C.coin(4) ? 0 : 1; r2.cs = C.below(3);
      if (broken == 1) r2.tv = 2 + C.below(9);
      if (broken == 2) r2.cs = 3 + C.below(9);
      size_t sl = C.coin(12) ? C.len(60) : r2.cs == 1 ? 48 : 32;
      Bytes a = C.bytes(sl), b = C.bytes(sl);
      r2.ik.assign(a.begin(), a.end()); r2.ok.assign(b.begin(), b.end());
      r2.iseq = seqno(); r2.oseq = seqno(); r2.cid = C.next();
      r2.proto = text(); r2.pf = text(); r2.lf = text();
      r2.peer = C.coin(4) ? Ident{0, ""} : ident();
      r2.local = C.coin(5) ? Ident{0, ""} : C.coin() ? chosen : ident();
      r2.resumed = C.coin();
      Wire s, w;
      s.num(1, r2.tv).num(2, r2.cs).num(3, r2.iseq).num(4, r2.oseq).str(5, r2.ik).str(6, r2.ok).num(9, r2.cid).num(10, r2.resumed);
      w.str(1, r2.proto);
      if (broken != 3) w.str(2, s.b, true);
      if (r2.peer.first || C.coin()) w.str(4, wire_of(r2.peer), true);
      if (broken != 4) w.str(5, wire_of(r2.local), true);
      w.str(6, r2.lf).str(7, r2.pf);
      m.str(4, w.b, true);
      d += "result suite " + str(r2.cs) + " version " + str(r2.tv) + " seq " + std::to_string(r2.iseq) + "/" + std::to_string(r2.oseq) + " peer " + show(r2.peer) + " local " + show(r2.local) + (broken ? " defect " + str(broken) : "") + " ";
    }
    int st = C.coin(6) ? C.below(3) : 0;     // 0 OK, 1 error code, 2 no status
    if (st == 0) { Wire s; m.str(5, s.b, true); }
    if (st == 1) { Wire s; s.num(1, 1 + C.below(16)).str(2, text(40)); m.str(5, s.b, true); d += "error status "; }
    if (st == 2) d += "no status ";
    log(d + "out " + show(out).substr(0, 40) + ")");
    err = st != 0 || broken;
    auto r = p->GetBytesForPeer(buf(m.b));
    if (err) {
      CHECK(!r.status.ok(), st ? "a response without OK status was accepted" : "an incomplete or invalid result was accepted");
      CHECK(r.bytes_consumed == 0 && (!r.buffer || r.buffer->empty()), "a refused response yields bytes for the peer");
    } else {
      CHECK(r.status.ok(), "valid response rejected: " + std::string(r.status.message()));
      CHECK(r.buffer && std::string(r.buffer->begin(), r.buffer->end()) == out, "bytes for the peer are not S2A's");
      CHECK(r.bytes_consumed == (uint32_t)consumed, "consumed count is " + str(r.bytes_consumed) + " instead of S2A's");
    }
    if (st == 0 && with_sel) { have_sel = true; sel = chosen; }
    if (!err && with_res) { finished = true; res = r2; ctx_taken = false; }
    after(!err);
  }
  void after(bool) { CHECK(p->IsHandshakeFinished() == finished, finished ? "finished handshake not reported" : "handshake reported finished without a complete valid result"); }

  void context() {
    log("GetS2AContext");
    auto v = p->GetS2AContext();
    if (!finished) { CHECK(v.index() == 0 && !absl::get<0>(v).ok(), "context obtainable before the handshake finished"); return; }
    if (ctx_taken) return;
    ctx_taken = true;
    CHECK(v.index() == 1 && absl::get<1>(v), "no context after the handshake finished");
    auto& c = *absl::get<1>(v);
    CHECK(c.ApplicationProtocol() == res.proto, "context protocol differs");
    CHECK((int)c.TlsVersion() == res.tv && (int)c.Ciphersuite() == res.cs, "context version or ciphersuite differs");
    CHECK(back(c.PeerIdentity()) == res.peer, "context peer identity differs");
    CHECK(back(c.LocalIdentity()) == res.local, "context local identity differs");
    CHECK(c.PeerCertFingerprint() == res.pf, "context peer fingerprint differs");
    CHECK(c.LocalCertFingerprint() == res.lf, "context local fingerprint differs");
    CHECK(c.IsHandshakeResumed() == res.resumed, "context resumption flag differs");
  }
  void protector() {
    log("CreateFrameProtector");
    auto v = p->CreateFrameProtector();
    if (!finished) { CHECK(!v.ok(), "frame protector obtainable before the handshake finished"); return; }
    bool good = res.tv == 1 && res.ik.size() == (size_t)(res.cs == 1 ? 48 : 32);
    CHECK(v.ok() == good, good ? "no frame protector: " + std::string(v.status().message()) : "frame protector built from unusable keys");
    if (!good) return;
    auto& f = **v;
    HalfRef in, out;
    for (HalfRef* r : {&in, &out}) {
      r->alg = res.cs == 0 ? A128 : res.cs == 1 ? A256 : CC;
      r->h384 = res.cs == 1;
      auto& k = r == &in ? res.ik : res.ok;
      r->secret.assign(k.begin(), k.end());
      r->seq = r == &in ? res.iseq : res.oseq;
      r->derive();
    }
    auto rec = [](HalfRef& r, Bytes inner, int type) {
      inner.push_back(type);
      size_t n = inner.size() + 16;
      Bytes hd = {23, 3, 3, (uint8_t)(n >> 8), (uint8_t)n};
      Bytes c = ref_seal(r.alg, r.key, r.nonce(), hd, inner);
      hd.insert(hd.end(), c.begin(), c.end());
      return hd;
    };
    Bytes d = C.bytes(1 + C.len(60));
    Bytes want = rec(out, d, 23);
    auto pr = f.Protect({{d.data(), d.size()}});
    CHECK(pr.status.ok(), "protect failed on the new frame protector");
    CHECK(take(pr.bytes) == want, "outbound record is not under the result's outbound secret and sequence number");
    g_sent.clear();
    if (res.iseq < ~0ULL - 4) {
      Bytes t = rec(in, enc({4, C.bytes(8)}), 22);
      auto u = f.Unprotect({{t.data(), t.size()}});
      CHECK(u.status.ok(), "ticket rejected by the new frame protector");
      take(u.bytes);
    }
    Bytes a = rec(in, d, 23);
    auto u = f.Unprotect({{a.data(), a.size()}});
    CHECK(u.status.ok() && take(u.bytes) == d, "inbound record under the result's inbound secret and sequence number rejected");
    if (res.iseq < ~0ULL - 4) {
      CHECK(g_sent.size() == 1, "ticket not forwarded");
      CHECK(g_sent[0].url == addr && g_sent[0].id == res.cid && g_sent[0].who == res.local, "frame protector built with another address, connection id or identity");
    }
  }
};

static bool run(const std::string& prop) {
  // Create() needs a logger and options
  {
    S2AProxy::S2AProxyOptions a{nullptr, true, "p", "h", absl::make_unique<S2AOptions>(), nullptr, nullptr, nullptr};
    C.cur = "no logger";
    CHECK(S2AProxy::Create(a) == nullptr, "proxy created without a logger");
    S2AProxy::S2AProxyOptions b{[](const std::string&) {}, true, "p", "h", nullptr, nullptr, nullptr, nullptr};
    C.cur = "no options";
    CHECK(S2AProxy::Create(b) == nullptr, "proxy created without options");
  }
  while (C.more()) {
    World w;
    w.prop = prop;
    w.create();
    int n = 1 + C.below(10);
    for (int k = 0; k < n; k++) {
      int a = C.below(12);
      if (k == 0 && C.coin()) a = 0;
      if (a < 5) w.to_s2a();
      else if (a < 9) w.to_peer();
      else if (a == 9) w.retoken();
      else if (a == 10) w.context();
      else w.protector();
    }
    std::string key = w.h;
    for (auto& c : key) if (isdigit(c)) c = '0';
    case_done(key.substr(0, 400), n > 1);
  }
  return true;
}
bool run_property(const std::string& p) { return (p == "P17" || p == "P18" || p == "P19") && run(p); }
