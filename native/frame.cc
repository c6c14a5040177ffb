// Oracle for the frame protector (P14-P16): framing, deframing and buffer ownership against a reference.
#include "refs.h"
#include "include/s2a_frame_protector.h"
#include <map>
using s2a::aead_crypter::Iovec;
using s2a::frame_protector::S2AFrameProtector;
using Opt = s2a::s2a_options::S2AOptions;

// Ownership accounting of the caller's allocator.
struct Pool {
  std::map<void*, size_t> live;          // allocated and not destroyed
  std::set<void*> freed;
  std::vector<void*> blocks;
  size_t allocs = 0, frees = 0;
  ~Pool() { for (auto b : blocks) free(b); }
  Iovec get(size_t n) {
    void* p = malloc(n ? n : 1);
    memset(p, 0xC3, n ? n : 1);
    blocks.push_back(p);
    live[p] = n;
    allocs++;
    return {p, n};
  }
  void put(Iovec v) {
    frees++;
    CHECK(!freed.count(v.iov_base), "buffer destroyed twice");
    CHECK(live.count(v.iov_base), "destroy called on a buffer the allocator did not produce");
    live.erase(v.iov_base);
    freed.insert(v.iov_base);
  }
};
static std::vector<Iovec> iov(const Split& s) {
  std::vector<Iovec> r;
  for (auto& p : s.v) r.push_back({p.second ? (void*)p.first : nullptr, p.second});
  r.shrink_to_fit();  // so that a read past the last piece is seen
  return r;
}
static Bytes hdr(size_t n) { return {23, 3, 3, (uint8_t)(n >> 8), (uint8_t)n}; }

struct World {
  std::string prop, h;
  Pool pool;
  HalfRef in, out;
  std::unique_ptr<S2AFrameProtector> f;
  bool closed = false, mid = false;
  void log(const std::string& s) { h += " " + s; C.cur = h; }
  void create() {
    int cs = C.below(3);
    size_t sl = cs == 1 ? 48 : 32;
    for (HalfRef* r : {&in, &out}) {
      r->alg = cs == 0 ? A128 : cs == 1 ? A256 : CC;
      r->h384 = cs == 1;
      r->secret = C.bytes(sl);
      r->seq = C.coin(4) ? ~0ULL - C.below(5) : C.coin(4) ? seqno() : C.below(3);
      r->derive();
    }
    std::string url = "s2a";
    auto id = Opt::Identity::FromHostname("h");
    h = "suite " + str(cs) + " seq " + std::to_string(in.seq) + "/" + std::to_string(out.seq) + ":";
    C.cur = h;
    Pool* p = &pool;
    S2AFrameProtector::S2AFrameProtectorOptions o = {Opt::TlsVersion::TLS1_3, (Opt::Ciphersuite)cs, in.secret, out.secret, in.seq, out.seq, url, id, 7, nullptr, nullptr,
        [p](size_t n) { return p->get(n); }, [p](Iovec v) { p->put(v); }, [](const std::string&) {}};
    auto v = S2AFrameProtector::Create(o);
    CHECK(v.ok(), "creation failed");
    f = std::move(v.value());
    CHECK(f->MaxRecordSize() == 16384 + 22, "maximum record size is not 2^14 + 22");
  }
  static size_t announced(size_t n) { return n + 22 * (n == 0 ? 1 : (n + 16383) / 16384); }

  size_t size() {
    switch (C.below(8)) {
      case 0: return 16384 * (1 + C.below(3)) + C.below(3) - 1;
      case 1: return 16384 * (1 + C.below(2));
      case 2: return C.below(50000);
      default: return C.len(600);
    }
  }
  void pieces(Split& sp, const Bytes& d) {
    if (d.size() > 16384 && C.coin(3)) {    // cuts at and around record boundaries
      size_t a = 0;
      while (a < d.size()) {
        size_t n = std::min(d.size() - a, C.coin() ? 16384 + C.below(3) - 1 : C.coin(4) ? 0 : C.below(20000));
        sp.add(d.data() + a, n);
        a += n;
      }
      return;
    }
    split(sp, d, 1 + C.below(10));
  }

  void sizes() {
    size_t n = C.coin() ? size() : C.coin() ? C.below(1u << 30) : (size_t)16384 * C.below(1u << 20) + C.below(3) - 1;
    if (n == (size_t)-1) n = 0;
    log("sizes(" + str(n) + ")");
    CHECK(f->NumberBytesToProtect(n) == announced(n), "NumberBytesToProtect(" + str(n) + ") is " + str(f->NumberBytesToProtect(n)) + " instead of " + str(announced(n)));
    size_t u = f->NumberBytesToUnprotect(n);
    if (n < 22) CHECK(u == 0, "NumberBytesToUnprotect of less than a record is not zero");
    else CHECK(u == n - 5, "NumberBytesToUnprotect(" + str(n) + ") is " + str(u));
    CHECK(f->MaxRecordSize() == 16384 + 22, "maximum record size changed");
  }

  void protect() {
    Bytes d = C.bytes(0);
    size_t n = size();
    d = C.bytes(n);
    Split sp;
    pieces(sp, d);
    auto v = iov(sp);
    size_t need = announced(n), recs = n == 0 ? 1 : (n + 16383) / 16384;
    CHECK(f->NumberBytesToProtect(v) == need && f->NumberBytesToProtect(n) == need, "announced size of " + str(n) + " bytes is " + str(f->NumberBytesToProtect(v)) + " instead of " + str(need));
    bool own = C.coin();
    bool small = !own && C.coin(6);
    size_t cap = small ? (need > 0 ? C.below(need) : 0) : need + (own ? 0 : C.coin() ? 0 : C.below(50));
    log("protect(" + str(n) + " bytes in " + str(v.size()) + " pieces" + (own ? ", allocated)" : ", buffer " + str(cap) + ")"));
    // expected output
    Bytes want;
    bool fails = small;
    HalfRef o2 = out;
    for (size_t k = 0; k < recs; k++) {
      size_t a = k * 16384, m = std::min<size_t>(16384, n - a);
      if (!o2.usable()) { fails = true; break; }
      if (small && want.size() + m + 22 > cap) break;
      Bytes inner(d.begin() + a, d.begin() + a + m);
      inner.push_back(23);
      Bytes hd = hdr(m + 17);
      Bytes ct = ref_seal(o2.alg, o2.key, o2.nonce(), hd, inner);
      want.insert(want.end(), hd.begin(), hd.end());
      want.insert(want.end(), ct.begin(), ct.end());
    }
    if (o2.over) {}
    out = o2;
    size_t live0 = pool.live.size();
    if (own) {
      auto r = f->Protect(v);
      CHECK(r.status.ok() == !fails, fails ? "protect succeeded on an exhausted direction" : "protect failed: " + std::string(r.status.message()));
      if (fails) {
        CHECK(r.bytes.empty(), "failed protect returns buffers");
        CHECK(pool.live.size() == live0, "failed protect leaves an allocated buffer neither returned nor destroyed");
        return;
      }
      size_t tot = 0;
      for (auto& b : r.bytes) { CHECK(pool.live.count(b.iov_base), "returned buffer is not live (destroyed or not from the allocator)"); tot += b.iov_len; }
      CHECK(pool.live.size() == live0 + r.bytes.size(), "allocated buffer neither returned nor destroyed");
      CHECK(tot == need, "protect returned " + str(tot) + " bytes instead of the announced " + str(need));
      Bytes got;
      for (auto& b : r.bytes) got.insert(got.end(), (uint8_t*)b.iov_base, (uint8_t*)b.iov_base + b.iov_len);
      CHECK(got == want, "protected bytes are not the records of the consecutive chunks");
      for (auto& b : r.bytes) pool.put(b);
    } else {
      Bytes* buf = new Bytes(cap, 0xC3);
      uint8_t one[1];
      Iovec b{cap ? (void*)buf->data() : one, cap};
      auto st = f->Protect(v, b);
      CHECK(st.ok() == !fails, fails ? "protect into a too small buffer or on an exhausted direction succeeded" : "protect failed: " + std::string(st.message()));
      CHECK(pool.live.size() == live0, "protect into the caller's buffer leaves an allocation");
      if (!fails) {
        CHECK(std::equal(want.begin(), want.end(), buf->begin()), "protected bytes are not the records of the consecutive chunks");
        for (size_t i = need; i < cap; i++) CHECK((*buf)[i] == 0xC3, "byte beyond the announced size written");
      }
      delete buf;
    }
  }

  // Builds a buffer of records and the expected plaintexts.
  void unprotect() {
    int recs = C.coin(12) ? 0 : 1 + C.below(C.coin(3) ? 6 : 2);
    Bytes buf;
    std::vector<Bytes> want;
    std::string d;
    bool bad = recs == 0, dead = false;
    HalfRef r = in;
    bool sawclose = false;
    auto one = [&](int k) {
      if (C.coin(14)) {   // something malformed
        int w = C.below(7);
        Bytes x;
        if (w == 0) { x = C.bytes(C.below(30)); if (x.empty()) x.push_back(23); d += " random" + str(x.size()); }
        else if (w == 1) { Bytes p = C.bytes(C.below(22)); x = hdr(p.size()); x.insert(x.end(), p.begin(), p.end()); d += " short" + str(p.size()); }
        else {
          Bytes inner = C.bytes(C.len(40));
          inner.push_back(23);
          Bytes hd = hdr(inner.size() + 16);
          Bytes ct = ref_seal(r.alg, r.key, HalfRef(r).nonce(), hd, inner);
          x = hd;
          x.insert(x.end(), ct.begin(), ct.end());
          if (w == 2) x[C.below(5)] ^= 1 << C.below(8);
          else if (w == 3) x[5 + C.below(ct.size())] ^= 1 << C.below(8);
          else x.resize(C.coin() ? x.size() - 1 - C.below(x.size() - 1) : x.size() - 1);
          d += w == 2 ? " header-flip" : w == 3 ? " flip" : " truncated" + str(x.size());
        }
        buf.insert(buf.end(), x.begin(), x.end());
        bad = true;
        return;
      }
      int t = C.coin(8) ? 22 : C.coin(30) ? 21 : 23;
      Bytes content = C.bytes(C.coin(10) ? size() % 16385 : C.len(300));
      if (t == 22) { content = {}; if (C.coin()) { Msg m{4, C.bytes(C.len(50))}; content = enc(m); } }
      if (t == 21) { content = {1, (uint8_t)(C.coin() ? 0 : 40)}; }
      size_t pad = C.coin(5) ? C.below(20) : 0;
      if (content.size() + pad > 16384) pad = 0;
      Bytes inner = content;
      inner.push_back(t);
      inner.resize(inner.size() + pad);
      Bytes hd = hdr(inner.size() + 16);
      Bytes ct = ref_seal(r.alg, r.key, r.usable() ? r.nonce() : r.iv, hd, inner);
      buf.insert(buf.end(), hd.begin(), hd.end());
      buf.insert(buf.end(), ct.begin(), ct.end());
      d += " " + str(t) + ":" + str(content.size()) + "+" + str(pad);
      if (t == 21) { bad = true; if (content[1] == 0) sawclose = true; }
      want.push_back(t == 23 ? content : Bytes());
    };
    // reference outcome, record by record
    HalfRef s = in;
    for (int k = 0; k < recs; k++) { bool us = r.usable(); one(k); if (!us) bad = true; if (bad && !C.coin(3)) break; }
    (void)s; (void)dead;
    if (C.coin(10) && recs) { Bytes tail = C.bytes(1 + C.below(25)); if (C.coin()) { tail = hdr(C.below(400)); tail.resize(1 + C.below(5)); } buf.insert(buf.end(), tail.begin(), tail.end()); bad = true; d += " tail" + str(tail.size()); }
    Split sp;
    // cut inside headers: byte pieces at the front half of the time
    if (C.coin(3) && buf.size() < 2000) { size_t a = 0; while (a < buf.size()) { size_t m = std::min(buf.size() - a, C.below(4)); sp.add(buf.data() + a, m); a += m; } }
    else pieces(sp, buf);
    auto v = iov(sp);
    size_t live0 = pool.live.size();
    bool single = C.coin(3);
    std::string pd;
    log(std::string(single ? "unprotect-one(" : "unprotect(") + d + " | pieces " + sp.desc.substr(0, 200) + ")");
    bool first_ok = !bad || false;
    (void)first_ok;
    if (single) {
      size_t cap = buf.size() < 22 ? 8 : buf.size() - 5;
      CHECK(f->NumberBytesToUnprotect(v) == (buf.size() < 22 ? 0 : buf.size() - 5), "announced unprotect size");
      Bytes* o = new Bytes(cap, 0xC3);
      Iovec ov{o->data(), cap};
      auto st = f->Unprotect(v, ov);
      bool ok = !bad && !closed && want.size() == 1;
      CHECK(st.ok() == ok, ok ? "single unprotect failed: " + std::string(st.message()) : want.size() != 1 ? "single unprotect accepted other than one record" : "single unprotect accepted an invalid record");
      if (ok) {
        CHECK(ov.iov_len == want[0].size(), "plaintext length " + str(ov.iov_len) + " instead of " + str(want[0].size()));
        CHECK(ov.iov_base == (void*)o->data() && std::equal(want[0].begin(), want[0].end(), o->begin()), "plaintext differs");
      }
      CHECK(pool.live.size() == live0 && pool.allocs == pool.frees + pool.live.size(), "single unprotect leaves an allocation or destroys a buffer");
      delete o;
    } else {
      auto res = f->Unprotect(v);
      bool ok = !bad && !closed;
      CHECK(res.status.ok() == ok, ok ? "unprotect failed: " + std::string(res.status.message()) : "unprotect reports success for a buffer that is not a sequence of complete valid records");
      if (!ok) {
        CHECK(res.bytes.empty(), "failed unprotect returns buffers");
        CHECK(pool.live.size() == live0, str(pool.live.size() - live0) + " buffer(s) neither returned nor destroyed after a failed unprotect");
      } else {
        CHECK(pool.live.size() == live0 + res.bytes.size(), "allocated buffer neither returned nor destroyed");
        std::set<void*> seen;
        Bytes got, all;
        CHECK(res.bytes.size() == want.size(), str(res.bytes.size()) + " plaintexts for " + str(want.size()) + " records");
        for (size_t k = 0; k < want.size(); k++) {
          auto& b = res.bytes[k];
          CHECK(pool.live.count(b.iov_base) && seen.insert(b.iov_base).second, "returned buffer is not live");
          CHECK(b.iov_len == want[k].size() && std::equal(want[k].begin(), want[k].end(), (uint8_t*)b.iov_base), "plaintext of record " + str(k) + " differs");
        }
        for (auto& b : res.bytes) pool.put(b);
      }
    }
    // bring the reference state up to date
    if (bad || closed || (single && want.size() != 1)) stop = true;
    else in = r;
    (void)sawclose;
  }
  bool stop = false;
};

static bool run(const std::string& prop) {
  while (C.more()) {
    World w;
    w.prop = prop;
    w.create();
    int n = 1 + C.below(6);
    for (int k = 0; k < n && !w.stop; k++) {
      int what = C.below(10);
      if (what == 0) w.sizes();
      else if (what < (prop == "P14" ? 9 : prop == "P15" ? 2 : 5)) w.protect();
      else w.unprotect();
    }
    w.f.reset();
    CHECK(w.pool.live.empty(), "buffers left after destruction");
    case_done(w.h, true);
  }
  return true;
}
bool run_property(const std::string& p) { return (p == "P14" || p == "P15" || p == "P16") && run(p); }
