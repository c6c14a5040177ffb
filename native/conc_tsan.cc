// Oracle for P24 (built with -fsanitize=thread): concurrent use of one half connection, frame protector and proxy.
// absl is not instrumented, so the acquire/release edges of absl::Mutex are added by wrapping its operations.
#include "refs.h"
#include "wire.h"
#include "include/s2a_frame_protector.h"
#include "include/s2a_proxy.h"
#include "src/record_protocol/s2a_half_connection.h"
#include <atomic>
#include <mutex>
#include <thread>
using s2a::aead_crypter::Iovec;
using Opt = s2a::s2a_options::S2AOptions;
using s2a::record_protocol::S2AHalfConnection;
using s2a::frame_protector::S2AFrameProtector;
using s2a::s2a_proxy::S2AProxy;

extern "C" {
void __tsan_acquire(void*);
void __tsan_release(void*);
void __real__ZN4absl7debian35Mutex4LockEv(void*);
void __wrap__ZN4absl7debian35Mutex4LockEv(void* m) { __real__ZN4absl7debian35Mutex4LockEv(m); __tsan_acquire(m); }
void __real__ZN4absl7debian35Mutex6UnlockEv(void*);
void __wrap__ZN4absl7debian35Mutex6UnlockEv(void* m) { __tsan_release(m); __real__ZN4absl7debian35Mutex6UnlockEv(m); }
void __real__ZN4absl7debian35Mutex10ReaderLockEv(void*);
void __wrap__ZN4absl7debian35Mutex10ReaderLockEv(void* m) { __real__ZN4absl7debian35Mutex10ReaderLockEv(m); __tsan_acquire(m); }
void __real__ZN4absl7debian35Mutex12ReaderUnlockEv(void*);
void __wrap__ZN4absl7debian35Mutex12ReaderUnlockEv(void* m) { __tsan_release(m); __real__ZN4absl7debian35Mutex12ReaderUnlockEv(m); }
}

static void parallel(std::vector<std::function<void()>> fs) {
  std::atomic<int> ready{0};
  std::vector<std::thread> t;
  for (auto& f : fs) t.emplace_back([&ready, &fs, &f] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < (int)fs.size()) {} f(); });
  for (auto& x : t) x.join();
}

static void half_case() {
  int cs = C.below(3);
  HalfRef r;
  r.alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
  r.h384 = cs == 1;
  r.secret = C.bytes(cs == 1 ? 48 : 32);
  r.seq = C.coin(3) ? ~0ULL - C.below(12) : C.below(1000);
  r.derive();
  auto v = S2AHalfConnection::Create((Opt::Ciphersuite)cs, r.seq, r.secret);
  CHECK(v.index() == 1, "creation failed");
  auto& c = absl::get<1>(v);
  int nt = 2 + C.below(3), ops = 1 + C.below(6);
  int upd = C.coin() ? 0 : C.coin() ? 1 : nt, each = C.coin() ? 1 : ops;   // threads that update the key, updates by each
  bool dec = C.coin();
  C.cur = "half connection, suite " + str(cs) + ", first sequence " + std::to_string(r.seq) + ", " + str(nt) + " threads x " + str(ops) + " operations" + (upd ? ", " + str(upd) + " updating the key " + str(each) + " times" : "") + (dec ? ", one decrypting" : "");
  std::mutex mu;
  std::vector<Bytes> got;
  std::atomic<int> used{0};
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < nt; t++)
    fs.push_back([&, t] {
      for (int k = 0; k < ops; k++) {
        Bytes pt(5, (uint8_t)t), aad(3, 1), out(64, 0);
        if (c->TagLength() != 16) abort();
        if (t < upd && (each == ops || k == ops / 2)) { if (!c->UpdateKey().ok()) abort(); }
        if (dec && t == 1) {
          Bytes ct(30, 7);
          (void)c->Decrypt({{aad.data(), 3}}, {{ct.data(), ct.size()}}, {out.data(), out.size()});
          used++;
          continue;
        }
        auto s = c->Encrypt({{aad.data(), 3}}, {{pt.data(), 5}}, {out.data(), out.size()});
        used++;
        if (s.GetStatus().ok()) { out.resize(s.GetBytesWritten()); std::lock_guard<std::mutex> l(mu); got.push_back(out); }
      }
    });
  parallel(fs);
  // every ciphertext must belong to a distinct sequence number of the old or the new key
  std::set<std::pair<int, uint64_t>> seen;
  std::vector<HalfRef> epochs = {r};
  for (int k = 0; k < upd * each; k++) { HalfRef n = epochs.back(); n.update(); epochs.push_back(n); }
  for (auto& g : got) {
    bool found = false;
    for (size_t e = 0; e < epochs.size() && !found; e++) {
      HalfRef x = epochs[e];
      for (int k = 0; k < used + 1 && !x.over && !found; k++) {
        uint64_t s = x.seq;
        Bytes pt;
        if (ref_open(x.alg, x.key, x.nonce(), Bytes(3, 1), g, &pt)) { found = true; CHECK(seen.insert({e, s}).second, "two concurrent encryptions used the same sequence number under one key"); }
      }
    }
    CHECK(found, "a concurrent encryption used no sequence number of this direction");
  }
  // once the threads are done the direction is exactly at its last key
  if (upd && c->UpdateKey().ok()) {
    HalfRef x = epochs.back();
    x.update();
    Bytes pt(5, 9), aad(3, 1), out(21, 0), chk;
    CHECK(c->Encrypt({{aad.data(), 3}}, {{pt.data(), 5}}, {out.data(), out.size()}).GetStatus().ok(), "unusable after concurrent key updates");
    CHECK(ref_open(x.alg, x.key, x.nonce(), Bytes(3, 1), out, &chk), "concurrent key updates did not advance the secret once each");
  }
  case_done(C.cur, true);
}

// One connection: protecting, unprotecting and updating the outbound key at once.
static void crypter_case() {
  HalfRef in, out;
  int cs = C.below(3);
  for (HalfRef* r : {&in, &out}) {
    r->alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
    r->h384 = cs == 1;
    r->secret = C.bytes(cs == 1 ? 48 : 32);
    r->seq = C.below(100);
    r->derive();
  }
  auto v = s2a::record_protocol::S2ACrypter::Create(Opt::TlsVersion::TLS1_3, (Opt::Ciphersuite)cs, 7, "s2a", Opt::Identity::FromHostname("h"), in.secret, out.secret, in.seq, out.seq,
      s2a::s2a_ticket_sender::SendTicketsToS2A, nullptr, nullptr, [](const std::string&) {});
  CHECK(v.index() == 1, "creation failed");
  auto& c = absl::get<1>(v);
  typedef s2a::record_protocol::S2ACrypter::RecordType RT;
  int np = 1 + C.below(2), nu = C.below(3), ops = 1 + C.below(5);
  C.cur = "crypter, suite " + str(cs) + ", " + str(np) + " protecting threads, one unprotecting, " + str(nu) + " updating the outbound key, " + str(ops) + " operations each";
  std::mutex mu;
  std::vector<Bytes> got;
  std::string err;
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < np; t++)
    fs.push_back([&] {
      for (int k = 0; k < ops; k++) {
        Bytes pt(9, (uint8_t)k), rec(9 + 22);
        auto s = c->Protect(RT::APPLICATION_DATA, {{pt.data(), 9}}, {rec.data(), rec.size()});
        if (c->RecordOverhead() != 22) abort();
        std::lock_guard<std::mutex> l(mu);
        if (s.GetBytesWritten() != rec.size()) { err = "protect failed: " + s.GetErrorMessage(); return; }
        got.push_back(rec);
      }
    });
  for (int t = 0; t < nu; t++) fs.push_back([&] { for (int k = 0; k < ops; k++) if (!c->UpdateOutboundKey().ok()) abort(); });
  fs.push_back([&] {
    for (int k = 0; k < ops; k++) {
      Bytes inner(4, (uint8_t)k);
      inner.push_back(23);
      Bytes rec = {23, 3, 3, 0, (uint8_t)(inner.size() + 16)};
      Bytes ct = ref_seal(in.alg, in.key, in.nonce(), rec, inner), o(ct.size());
      auto s = c->Unprotect({rec.data(), 5}, {{ct.data(), ct.size()}}, {o.data(), o.size()});
      if (s.GetBytesWritten() != 4) { std::lock_guard<std::mutex> l(mu); err = "unprotect failed: " + s.GetErrorMessage(); return; }
    }
  });
  parallel(fs);
  CHECK(err.empty(), err);
  std::vector<HalfRef> epochs = {out};
  for (int k = 0; k < nu * ops; k++) { HalfRef n = epochs.back(); n.update(); epochs.push_back(n); }
  std::set<std::pair<size_t, uint64_t>> seen;
  for (auto& g : got) {
    bool found = false;
    Bytes hd(g.begin(), g.begin() + 5), ct(g.begin() + 5, g.end()), pt;
    for (size_t e = 0; e < epochs.size() && !found; e++) {
      HalfRef x = epochs[e];
      for (size_t k = 0; k <= got.size() && !found; k++) {
        uint64_t s = x.seq;
        if (ref_open(x.alg, x.key, x.nonce(), hd, ct, &pt)) { found = true; CHECK(seen.insert({e, s}).second, "two concurrent records share a sequence number under one key"); }
      }
    }
    CHECK(found, "a record protected concurrently uses no sequence number of this connection");
  }
  case_done(C.cur, true);
}

static void frame_case() {
  HalfRef in, out;
  int cs = C.below(3);
  for (HalfRef* r : {&in, &out}) {
    r->alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
    r->h384 = cs == 1;
    r->secret = C.bytes(cs == 1 ? 48 : 32);
    r->seq = C.below(100);
    r->derive();
  }
  std::string url = "s2a";
  auto id = Opt::Identity::FromHostname("h");
  S2AFrameProtector::S2AFrameProtectorOptions o = {Opt::TlsVersion::TLS1_3, (Opt::Ciphersuite)cs, in.secret, out.secret, in.seq, out.seq, url, id, 7, nullptr, nullptr,
      [](size_t n) { return Iovec{malloc(n ? n : 1), n}; }, [](Iovec v) { free(v.iov_base); }, [](const std::string&) {}};
  auto f = S2AFrameProtector::Create(o);
  CHECK(f.ok(), "creation failed");
  int np = 1 + C.below(3), ops = 1 + C.below(5);
  C.cur = "frame protector, suite " + str(cs) + ", " + str(np) + " protecting threads, one unprotecting, " + str(ops) + " operations each";
  // inbound: application data, key updates and bad records, in order
  std::vector<std::pair<Bytes, Bytes>> recs;     // record, expected data ({} with 1-byte marker for none)
  std::vector<bool> good;
  for (int k = 0; k < ops; k++) {
    bool ku = C.coin(3);
    Bytes inner = ku ? enc({0x18, Bytes(1, 0)}) : Bytes(4, (uint8_t)k), data = ku ? Bytes() : inner;
    inner.push_back(ku ? 22 : 23);
    Bytes rec = {23, 3, 3, 0, (uint8_t)(inner.size() + 16)};
    Bytes ct = ref_seal(in.alg, in.key, in.nonce(), rec, inner);
    rec.insert(rec.end(), ct.begin(), ct.end());
    bool bad = !ku && C.coin(4);
    if (bad) rec[9] ^= 1;
    if (ku) in.update();
    recs.push_back({rec, data});
    good.push_back(!bad);
  }
  std::mutex mu;
  std::vector<Bytes> got;
  std::string err;
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < np; t++)
    fs.push_back([&, t] {
      for (int k = 0; k < ops; k++) {
        Bytes pt(20 + t, (uint8_t)k);
        auto r = (*f)->Protect({{pt.data(), pt.size()}});
        std::lock_guard<std::mutex> l(mu);
        if (!r.status.ok() || r.bytes.size() != 1) { err = "protect failed while unprotecting concurrently"; return; }
        got.push_back(Bytes((uint8_t*)r.bytes[0].iov_base, (uint8_t*)r.bytes[0].iov_base + r.bytes[0].iov_len));
        free(r.bytes[0].iov_base);
        (void)(*f)->NumberBytesToProtect(10);
      }
    });
  fs.push_back([&] {
    for (size_t k = 0; k < recs.size(); k++) {
      auto r = (*f)->Unprotect({{recs[k].first.data(), recs[k].first.size()}});
      if (r.status.ok() != good[k]) { std::lock_guard<std::mutex> l(mu); err = "unprotect misbehaved while protecting concurrently"; return; }
      Bytes all;
      for (auto& b : r.bytes) { all.insert(all.end(), (uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len); free(b.iov_base); }
      if (good[k] && all != recs[k].second) { std::lock_guard<std::mutex> l(mu); err = "unprotected data differs while protecting concurrently"; return; }
    }
  });
  parallel(fs);
  CHECK(err.empty(), err);
  std::set<size_t> seen;
  std::vector<Bytes> nonces;
  for (size_t k = 0; k < got.size(); k++) nonces.push_back(out.nonce());
  for (auto& g : got) {
    bool found = false;
    Bytes hd(g.begin(), g.begin() + 5), ct(g.begin() + 5, g.end()), pt;
    for (size_t k = 0; k < nonces.size() && !found; k++)
      if (ref_open(out.alg, out.key, nonces[k], hd, ct, &pt)) { found = true; CHECK(seen.insert(k).second, "two records share a sequence number"); }
    CHECK(found, "a record uses no sequence number of this connection");
  }
  case_done(C.cur, true);
}

static void proxy_case() {
  bool client = C.coin();
  auto o = absl::make_unique<Opt>();
  o->set_s2a_address("s2a");
  o->add_supported_ciphersuite(Opt::Ciphersuite::AES_128_GCM_SHA256);
  S2AProxy::S2AProxyOptions po{[](const std::string&) {}, client, "p", "h", std::move(o), nullptr, nullptr, nullptr};
  auto p = S2AProxy::Create(po);
  int nt = 2 + C.below(3);
  bool fin = C.coin(), fail1 = C.coin();
  C.cur = std::string(client ? "client" : "server") + " proxy used by " + str(nt) + " threads" + (fin ? " while the handshake finishes" : "");
  Wire s, w, m, id;
  id.str(2, "host");
  s.num(1, 1).num(2, 0).str(5, std::string(32, 'i')).str(6, std::string(32, 'o')).num(9, 5);
  w.str(1, "p").str(2, s.b, true).str(5, id.b, true);
  m.str(2, "x").num(3, 1);
  if (fin) m.str(4, w.b, true);
  m.str(5, "", true);
  std::atomic<int> starts{0}, nexts{0};
  std::vector<std::function<void()>> fs;
  for (int t = 0; t < nt; t++)
    fs.push_back([&, t] {
      if (fail1 && t == 0) (void)p->GetBytesForPeer(nullptr);    // an error path must release the lock
      if (fail1 && t == 1 && client) (void)p->GetBytesForS2A(nullptr) , (void)p->GetBytesForS2A(nullptr);
      else {
        auto r = p->GetBytesForS2A(client ? nullptr : absl::make_unique<std::vector<char>>(3, 'z'));
        if (r.status.ok()) {
          Parsed q(std::string(r.buffer->begin(), r.buffer->end()));
          if (q.has(client ? 1 : 2)) starts++; else nexts++;
        }
      }
      (void)p->IsHandshakeFinished();
    });
  fs.push_back([&] { auto r = p->GetBytesForPeer(absl::make_unique<std::vector<char>>(m.b.begin(), m.b.end())); if (!r.status.ok()) abort(); });
  parallel(fs);
  CHECK(starts <= 1, "several start messages were produced");
  CHECK((fail1 && client) || starts == 1, "no start message was produced");
  CHECK(p->IsHandshakeFinished() == fin, "finished flag lost");
  case_done(C.cur, true);
}

bool run_property(const std::string& p) {
  if (p != "P24") return false;
  while (C.more()) switch (C.below(4)) {
    case 0: half_case(); break;
    case 3: crypter_case(); break;
    case 1: frame_case(); break;
    default: proxy_case();
  }
  return true;
}
