// Oracle for the record layer (P08-P10, P12, P13): random histories of one S2ACrypter against a reference.
#include "refs.h"
#include "src/record_protocol/s2a_crypter.h"
using namespace s2a::record_protocol;
using s2a::aead_crypter::Iovec;
using Opt = s2a::s2a_options::S2AOptions;
using Code = S2ACrypter::S2ACrypterStatusCode;

struct Sent { std::string url; uint64_t id; int type; std::string ident; std::vector<std::string> tickets; bool factory, nullticket; };
static std::vector<Sent> g_sent;
static int g_waits, g_wait_mode;
static bool wait_fn() { g_waits++; return g_wait_mode != 2; }
static s2a::s2a_ticket_sender::WaitOnTicketSender sender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Sent s;
  s.url = o.handshaker_service_url; s.id = o.connection_id; s.type = (int)o.local_identity.GetIdentityType(); s.ident = o.local_identity.GetIdentityString();
  s.factory = o.channel_factory != nullptr;
  s.nullticket = o.tickets == nullptr;
  if (o.tickets) for (auto& t : *o.tickets) { if (!t) s.nullticket = true; else s.tickets.push_back(*t); }
  g_sent.push_back(s);
  return g_wait_mode ? wait_fn : nullptr;
}
struct Factory : s2a::s2a_channel::S2AChannelFactoryInterface {
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { return absl::InternalError("x"); }
};
static std::vector<Iovec> iov(const Split& s) {
  std::vector<Iovec> r;
  for (auto& p : s.v) r.push_back({p.second ? (void*)p.first : nullptr, p.second});
  r.shrink_to_fit();  // so that a read past the last piece is seen
  return r;
}
static Opt::Identity ident(int t, const std::string& s) {
  return t == 1 ? Opt::Identity::FromSpiffeId(s) : t == 2 ? Opt::Identity::FromHostname(s) : t == 3 ? Opt::Identity::FromUid(s) : Opt::Identity::GetEmptyIdentity();
}
static bool zero(const Bytes& b) { for (auto x : b) if (x) return false; return true; }
static Bytes hdr(size_t n) { return {23, 3, 3, (uint8_t)(n >> 8), (uint8_t)n}; }

struct World {
  std::string prop, h;
  std::unique_ptr<S2ACrypter> c;
  HalfRef in, out;
  HsRef hs;
  bool closed = false, stop = false, expect_more = false;
  int phase = 0;   // 0 no ticket yet, 1 receiving, 2 done
  size_t expected_sends = 0;
  std::string url, idstr; uint64_t id; int idtype; bool factory;
  std::vector<Bytes> want;   // tickets expected at the next send
  Bytes hsq; size_t hspos = 0; std::vector<size_t> kuends;

  void log(const std::string& s) { h += " " + s; C.cur = h; }

  void create() {
    int cs = C.below(3);
    size_t sl = cs == 1 ? 48 : 32;
    for (HalfRef* r : {&in, &out}) {
      r->alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
      r->h384 = cs == 1;
      r->secret = C.bytes(sl);
      r->seq = C.coin(3) ? seqno() : C.below(3);
      r->derive();
    }
    static const char* urls[] = {"s2a:1", "handshaker.service", "x", "127.0.0.1:5000"};
    url = urls[C.below(4)]; id = C.next(); idtype = C.below(4); idstr = idtype ? "id" + str(C.below(1000)) : "";
    factory = C.coin();
    g_sent.clear(); g_waits = 0; g_wait_mode = C.below(3);
    h = "suite " + str(cs) + " in secret " + hex(in.secret) + " seq " + std::to_string(in.seq) + " out secret " + hex(out.secret) + " seq " + std::to_string(out.seq) + ":";
    C.cur = h;
    auto v = S2ACrypter::Create(Opt::TlsVersion::TLS1_3, (Opt::Ciphersuite)cs, id, url, ident(idtype, idstr), in.secret, out.secret, in.seq, out.seq, sender,
                                factory ? std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface>(new Factory) : nullptr, nullptr, [](const std::string&) {});
    CHECK(v.index() == 1, "creation failed: " + std::string(v.index() == 0 ? absl::get<0>(v).message() : ""));
    c = std::move(absl::get<1>(v));
    CHECK(c->RecordOverhead() == 22, "record overhead is not 22");
  }

  void protect() {
    size_t n;
    switch (C.below(8)) {
      case 0: n = 16384 + C.below(4) - 1; break;
      case 1: n = 16380 + C.below(10); break;
      case 2: n = C.coin(4) ? 65536 + C.below(40) : C.len(3000); break;
      case 3: n = 255 - 17 - 2 + C.below(5); break;
      default: n = C.len(200);
    }
    int t = C.below(10);
    int type = t < 6 ? 0 : t < 8 ? 1 : 2;
    bool badtype = C.coin(25);
    if (badtype) type = 3 + C.below(100);
    Bytes pt = C.bytes(n > 4000 && C.coin(3) ? n : n);
    Split sp;
    split(sp, pt, 6);
    size_t need = n + 22;
    size_t cap = C.coin(8) ? (C.coin() ? need - 1 - C.below(std::min<size_t>(need, 25)) : C.below(need)) : need + (C.coin() ? 0 : C.len(60));
    bool us = out.usable();
    log("protect(type " + str(type) + ", pieces " + sp.desc + " buffer " + str(cap) + ")");
    Bytes* buf = new Bytes(cap, 0xA5);
    uint8_t one[1];
    auto st = c->Protect((S2ACrypter::RecordType)type, iov(sp), {cap ? (void*)buf->data() : one, cap});
    bool refuse = n > 16384 || cap < need || badtype;
    if (refuse) {
      CHECK(st.GetCode() != Code::OK, "protect accepted a too large plaintext, too small buffer or unknown type");
      CHECK(st.GetBytesWritten() == 0, "refused protect reports bytes");
    } else if (!us) {
      CHECK(st.GetCode() != Code::OK && st.GetBytesWritten() == 0, "protect succeeded on an exhausted direction");
      CHECK(zero(*buf), "record buffer not wiped after an encryption error");
    } else {
      Bytes inner = pt;
      inner.push_back(type == 0 ? 23 : type == 1 ? 21 : 22);
      Bytes hd = hdr(n + 17);
      Bytes want = hd, ct = ref_seal(out.alg, out.key, out.nonce(), hd, inner);
      want.insert(want.end(), ct.begin(), ct.end());
      CHECK(st.GetCode() == Code::OK, "protect failed: " + st.GetErrorMessage());
      CHECK(st.GetBytesWritten() == need, "protect reports " + str(st.GetBytesWritten()) + " bytes instead of " + str(need));
      CHECK(std::equal(want.begin(), want.begin() + 5, buf->begin()), "record header is " + hex(buf->data(), 5) + " instead of " + hex(hd));
      CHECK(std::equal(want.begin(), want.end(), buf->begin()), "record is not the encryption of plaintext and type under the outbound key and sequence number");
      for (size_t i = need; i < cap; i++) CHECK((*buf)[i] == 0xA5, "byte beyond the record was written");
    }
    delete buf;
  }

  // Feeds one record (header, payload) and checks everything about the answer.
  void unprotect(const Bytes& header, const Bytes& payload, size_t cap, int hdrlen = -1) {
    Split sp;
    split(sp, payload, C.coin(3) ? 1 : 6);
    Bytes* buf = new Bytes(cap, 0xA5);
    Bytes* hb = new Bytes(header);
    hb->shrink_to_fit();
    uint8_t one[1];
    size_t before = g_sent.size();
    auto st = c->Unprotect({hb->empty() ? nullptr : (void*)hb->data(), hb->size()}, iov(sp), {cap ? (void*)buf->data() : one, cap});
    size_t total = header.size() + payload.size();
    Code code = st.GetCode();
    size_t bw = st.GetBytesWritten();
    auto bad = [&](const char* w) { CHECK(code != Code::OK, std::string(w) + " accepted"); CHECK(bw == 0, std::string(w) + " reports bytes"); };
    auto untouched = [&]() { return std::all_of(buf->begin(), buf->end(), [](uint8_t x) { return x == 0xA5; }); };
    if (closed) {
      CHECK(code == Code::ALERT_CLOSE_NOTIFY, "unprotect after close-notify reports " + str((int)code));
      CHECK(bw == 0, "unprotect after close-notify reports bytes");
      CHECK(untouched(), "unprotect after close-notify touched the output");
    } else if (total > 16384 + 22) {
      CHECK(code == Code::ALERT_RECORD_OVERFLOW && bw == 0, "oversized record reported as " + str((int)code));
    } else if (total < 22 || header.size() != 5 || header[0] != 23 || header[1] != 3 || header[2] != 3 || (size_t)header[3] * 256 + header[4] != payload.size()) {
      bad("record with an invalid header or size");
    } else if (!in.usable()) {
      bad("record on an exhausted direction");
    } else {
      Bytes pt;
      bool auth = ref_open(in.alg, in.key, in.nonce(), header, payload, &pt);
      if (cap < payload.size() - 16) auth = false;
      if (!auth) {
        bad("record that does not authenticate");
        CHECK(zero(*buf), "output not wiped after a decryption failure");
      } else {
        long i = (long)pt.size() - 1;
        while (i >= 0 && !pt[i]) i--;
        int type = i < 0 ? -1 : pt[i];
        size_t n = i < 0 ? 0 : i;
        if (type == 23) {
          if (expect_more) {
            bad("application data in the middle of a handshake message");
          } else {
            CHECK(code == Code::OK, "valid application data record rejected: " + st.GetErrorMessage());
            CHECK(bw == n, "application data length " + str(bw) + " instead of " + str(n));
            CHECK(std::equal(pt.begin(), pt.begin() + n, buf->begin()), "application data differs");
            if (phase == 1) { expected_sends++; phase = 2; hs.retrieved = true; }
          }
        } else if (type == 21) {
          bad("alert");
          CHECK(zero(*buf), "output not wiped after an alert");
          if (n < 2) CHECK(code == Code::INVALID_RECORD, "short alert is not an invalid record");
          else if (pt[1] == 0) { CHECK(code == Code::ALERT_CLOSE_NOTIFY, "close-notify not reported as such"); closed = true; }
          else CHECK(code == Code::ALERT_OTHER, "alert not reported as another alert: " + str((int)code));
        } else if (type == 22) {
          size_t kept0 = hs.kept;
          auto r = hs.feed(pt.data(), n);
          if (r == HsRef::ERR) {
            bad("invalid handshake message");
            stop = true;
          } else {
            CHECK(code == Code::OK, "valid handshake record rejected: " + st.GetErrorMessage());
            CHECK(bw == 0, "handshake record reports application bytes");
            expect_more = !hs.cur.empty();
            if (hs.done_ku) in.update();
            if (hs.saw_ticket && phase == 0) phase = 1;
            if (phase == 1 && hs.saw_ticket && hs.kept >= 5) { expected_sends++; phase = 2; hs.retrieved = true; }
            (void)kept0;
          }
        } else {
          bad("record of unknown content type");
          CHECK(code == Code::INVALID_RECORD, "unknown content type is not an invalid record");
          if (type >= 0) CHECK(zero(*buf), "output not wiped after an unknown content type");
        }
      }
    }
    delete hb;
    delete buf;
    CHECK(g_sent.size() == expected_sends, g_sent.size() > expected_sends ? "tickets sent unexpectedly (or twice)" : "tickets not sent");
    if (g_sent.size() > before) {
      auto& s = g_sent.back();
      CHECK(!s.nullticket, "null ticket (list) sent");
      CHECK(s.url == url && s.id == id && s.type == idtype && s.ident == idstr, "tickets sent for the wrong connection, address or identity");
      CHECK(s.factory == factory, "channel factory not handed over");
      CHECK(s.tickets.size() == hs.tickets.size(), str(s.tickets.size()) + " tickets sent instead of " + str(hs.tickets.size()));
      for (size_t k = 0; k < s.tickets.size(); k++)
        CHECK(s.tickets[k] == std::string(hs.tickets[k].begin(), hs.tickets[k].end()), "ticket " + str(k) + " differs from the received message");
    }
  }

  Bytes seal(const Bytes& inner, Bytes* header) {
    *header = hdr(inner.size() + 16);
    HalfRef r = in;
    return ref_seal(in.alg, in.key, r.nonce(), *header, inner);
  }
  // A valid record around content of the given type, with padding.
  void valid(const Bytes& content, int type, size_t pad, const char* what) {
    Bytes inner = content;
    inner.push_back(type);
    inner.resize(inner.size() + pad);
    Bytes header, payload = seal(inner, &header);
    size_t cap = C.coin(30) ? C.below(inner.size()) : inner.size() + (C.coin() ? 0 : C.below(40));
    log(std::string(what) + "(" + str(content.size()) + " bytes, padding " + str(pad) + (cap < inner.size() ? ", output too small" : "") + ")");
    unprotect(header, payload, cap);
  }
  void invalid() {
    Bytes content = C.bytes(C.len(100)), header;
    content.push_back(C.coin() ? 23 : C.byte());
    Bytes payload = seal(content, &header);
    switch (C.below(9)) {
      case 0: { size_t b = C.below(5); header[b] ^= 1 << C.below(8); log("header bit flipped"); break; }
      case 1: { size_t b = C.below(payload.size()); payload[b] ^= 1 << C.below(8); log("payload bit flipped at " + str(b)); break; }
      case 2: payload.resize(payload.size() - 1 - C.below(std::min<size_t>(payload.size(), 20))); log("payload truncated"); break;
      case 3: payload.resize(payload.size() + 1 + C.below(20)); log("payload extended"); break;
      case 4: { payload = C.bytes(C.below(22)); header = hdr(payload.size()); log("short record " + str(payload.size())); break; }
      case 5: { payload = C.bytes(16384 + 17 + (C.coin() ? 1 : C.below(60))); header = hdr(payload.size()); log("large record " + str(payload.size())); break; }
      case 6: { header.resize(C.below(8)); log("header of " + str(header.size()) + " bytes"); break; }
      case 7: { header = C.bytes(5); log("random header"); break; }
      default: { Bytes z(1 + C.below(40), 0); payload = seal(z, &header); log("record of zeros only"); break; }
    }
    unprotect(header, payload, payload.size() + C.below(8));
  }
  void more_stream() {
    if (hspos < hsq.size() && !C.coin(20)) return;
    int n = 1 + C.below(prop == "P13" ? 8 : 4);
    for (int i = 0; i < n; i++) {
      Msg m;
      m.type = C.coin(prop == "P12" ? 2 : 5) ? 0x18 : 4;
      if (C.coin(80)) m.type = C.byte();
      m.body = C.bytes(m.type == 0x18 ? (C.coin(4) ? C.below(6) : 1) : C.coin(20) ? 17000 + C.below(3000) : C.len(300));
      Bytes e = enc(m);
      hsq.insert(hsq.end(), e.begin(), e.end());
      if (m.type == 0x18 && !C.coin(12)) kuends.push_back(hsq.size());
    }
  }
  void handshake() {
    more_stream();
    size_t left = hsq.size() - hspos;
    size_t n = C.coin(3) ? std::min<size_t>(left, C.below(7)) : C.coin() ? left : C.below(left + 1);
    n = std::min<size_t>(n, 16384);
    for (auto e : kuends) if (e > hspos && e < hspos + n) n = e - hspos;
    Bytes b(hsq.begin() + hspos, hsq.begin() + hspos + n);
    size_t pad = C.coin(4) ? C.below(10) : 0;
    if (n + pad > 16384) pad = 0;
    valid(b, 22, pad, ("handshake " + hex(b.data(), std::min<size_t>(b.size(), 12))).c_str());
    hspos += n;
  }
};

static bool run(const std::string& prop) {
  while (C.more()) {
    World w;
    w.prop = prop;
    w.create();
    int n = 1 + C.below(C.coin(10) ? 60 : 18);
    for (int k = 0; k < n && !w.stop; k++) {
      int what = C.below(20);
      int hsw = prop == "P12" || prop == "P13" ? 11 : prop == "P10" ? 2 : 4;
      if (prop == "P08") { if (what < 17) what = 0; }
      if (what < 2) w.protect();
      else if (what == 2) {
        w.log("outbound key update");
        auto st = w.c->UpdateOutboundKey();
        CHECK(st.ok(), "outbound key update failed");
        w.out.update();
      } else if (what < 3 + hsw) w.handshake();
      else if (what == 17 || (prop == "P10" && what > 11)) {
        Bytes a = C.bytes(C.coin(4) ? C.below(5) : 2);
        if (a.size() > 1 && a[1] == 0 && (C.coin() || k < n / 2)) a[1] = 1 + C.below(120);
        w.valid(a, 21, C.coin(3) ? C.below(30) : 0, "alert");
      } else if (what == 18 || (prop == "P09" && what > 14)) w.invalid();
      else if (what == 19 && C.coin(4)) {
        int t = C.byte();
        if (t == 0) t = 20;
        w.valid(C.bytes(C.len(30)), t, C.coin() ? C.below(5) : 0, ("content type " + str(t)).c_str());
      } else {
        size_t m = C.coin(12) ? 16384 - C.below(3) : C.len(400);
        Bytes b = C.bytes(m);
        if (C.coin(4)) for (size_t z = C.below(5); z > 0 && z <= b.size(); z--) b[b.size() - z] = 0;   // content ending in zeros
        size_t room = 16384 - m;
        w.valid(b, 23, std::min<size_t>(room, C.coin(3) ? C.below(40) : C.coin(20) ? room : 0), "application data");
      }
    }
    int sends = g_sent.size();
    w.log("destroy");
    w.c.reset();
    if (sends == 1 && g_wait_mode) CHECK(g_waits == 1, "pending ticket request not awaited on destruction");
    if (!sends || !g_wait_mode) CHECK(g_waits == 0, "wait function called without a request");
    case_done(w.h.substr(0, 8) + w.h.substr(w.h.find(':')), n > 2);
  }
  return true;
}

bool run_property(const std::string& p) { return (p == "P08" || p == "P09" || p == "P10" || p == "P12" || p == "P13") && run(p); }
