// Oracle for the handshake message parser (P11): a reference parser on the unfragmented stream.
#include "refs.h"
#include "src/record_protocol/handshake_message_handler.h"
using namespace s2a::handshake_message_handler;

static std::string head(const Bytes& b) { return hex(b.data(), std::min<size_t>(b.size(), 24)) + (b.size() > 24 ? "..." : ""); }

// Feeds `stream` cut at `cut` (call boundaries); retrieves the tickets before call `ret` (or at the end).
static void history(const Bytes& stream, const std::vector<size_t>& cut, long ret, bool again) {
  HandshakeMessageHandler h;
  HsRef r;
  size_t at = 0;
  std::string d = "stream " + head(stream) + " (" + str(stream.size()) + " bytes) in calls of";
  auto retrieve = [&]() {
    d += " [GetStoredTickets]";
    C.cur = d;
    auto v = h.GetStoredTickets();
    bool busy = r.kept < 5 && !r.cur.empty() && r.cur[0] == 4;
    bool ok = !r.retrieved && !busy;
    CHECK((v.index() == 1) == ok, ok ? "tickets not returned: " + std::string(absl::get<0>(v).message()) : r.retrieved ? "tickets returned twice" : "tickets returned in the middle of a ticket");
    if (!ok) { CHECK(!absl::get<0>(v).ok(), "error reported as OK"); return; }
    auto& t = absl::get<1>(v);
    CHECK(t != nullptr, "null ticket list");
    CHECK(t->size() == r.tickets.size(), str(t->size()) + " tickets returned instead of " + str(r.tickets.size()));
    for (size_t k = 0; k < t->size(); k++) {
      Bytes m;
      CHECK((*t)[k] != nullptr, "null ticket");
      for (auto& f : *(*t)[k]) { CHECK(f != nullptr, "null fragment"); m.insert(m.end(), f->begin(), f->end()); }
      CHECK(m == r.tickets[k], "ticket " + str(k) + " is " + head(m) + " (" + str(m.size()) + " bytes) instead of " + head(r.tickets[k]) + " (" + str(r.tickets[k].size()) + " bytes)");
    }
    r.retrieved = true;
    r.tickets.clear();
    r.kept = 0;
  };
  for (size_t k = 0; k <= cut.size(); k++) {
    if ((long)k == ret) retrieve();
    size_t end = k < cut.size() ? cut[k] : stream.size();
    size_t n = end - at;
    std::vector<uint8_t>* buf = new std::vector<uint8_t>(stream.begin() + at, stream.begin() + end);
    buf->shrink_to_fit();
    d += " " + str(n);
    C.cur = d;
    static uint8_t one;
    auto v = h.ProcessHandshakeMessage(n ? buf->data() : &one, n);
    auto e = r.feed(stream.data() + at, n);
    delete buf;
    at = end;
    CHECK((v.index() == 1) == (e == HsRef::OK), e == HsRef::OK ? "error on a valid stream: " + std::string(absl::get<0>(v).message()) : "no error for an unknown message type or a key update followed by bytes");
    if (e != HsRef::OK) { CHECK(!absl::get<0>(v).ok(), "error reported as OK"); case_done(d, true); return; }
    auto& x = absl::get<1>(v);
    CHECK(x.expecting_to_read_more_bytes == !r.cur.empty(), std::string("expecting_to_read_more_bytes is ") + (x.expecting_to_read_more_bytes ? "true" : "false") + " although the stream so far ends " + (r.cur.empty() ? "at a message boundary" : "inside a message"));
    CHECK((x.contains_key_update && !x.expecting_to_read_more_bytes) == r.done_ku, r.done_ku ? "completed key update not reported" : "key update reported that did not complete in this call");
    if (r.saw_ku) CHECK(x.contains_key_update, "key update bytes not reported");
    if (r.done_ku) CHECK(x.key_update_type == r.ku_type, "wrong key update type");
    CHECK(x.contains_ticket == r.saw_ticket, "contains_ticket wrong");
    CHECK(x.num_full_tickets_stored == (r.retrieved ? 0 : r.kept), "num_full_tickets_stored is " + str(x.num_full_tickets_stored) + " instead of " + str(r.retrieved ? 0 : r.kept));
    if (C.coin(40)) {
      auto w = h.ProcessHandshakeMessage(nullptr, C.below(3));
      CHECK(w.index() == 0 && !absl::get<0>(w).ok(), "null plaintext accepted");
    }
  }
  retrieve();
  if (again) retrieve();
  case_done(d, cut.size() > 0);
}

// Every way of cutting small streams (exhaustive).
static void exhaustive() {
  std::vector<std::vector<Msg>> streams = {
      {{4, {9}}}, {{4, {}}}, {{0x18, {1}}}, {{0x18, {}}}, {{4, {1, 2, 3}}, {4, {}}}, {{4, {}}, {4, {7}}},
      {{4, {5}}, {0x18, {0}}}, {{0x18, {1}}, {4, {5}}}, {{0x18, {}}, {4, {}}}, {{4, {0x18}}, {0x18, {4}}}, {{4, {4, 0, 0, 1}}}, {{7, {1}}}, {{4, {}}, {5, {}}}};
  for (auto& ms : streams) {
    Bytes s;
    for (auto& m : ms) { auto e = enc(m); s.insert(s.end(), e.begin(), e.end()); }
    for (unsigned mask = 0; mask < 1u << (s.size() - 1); mask++) {
      std::vector<size_t> c;
      for (size_t i = 1; i < s.size(); i++) if (mask >> (i - 1) & 1) c.push_back(i);
      history(s, c, -1, false);
      if (mask % 7 == 0) history(s, c, (long)(mask % (c.size() + 1)), true);
    }
  }
}

static size_t body() {
  switch (C.below(8)) {
    case 0: return 0;
    case 1: return 255 + C.below(3);
    case 2: return C.coin(3) ? 65535 + C.below(3) : C.coin(3) ? 65536 + 256 * C.below(4) + C.below(3) : C.below(300);
    case 3: return C.len(2000);
    default: return C.below(12);
  }
}

bool run_property(const std::string& p) {
  if (p != "P11") return false;
  exhaustive();
  while (C.more()) {
    int n = 1 + C.below(C.coin() ? 4 : 9);
    std::vector<size_t> ends;
    Bytes s;
    std::vector<size_t> forced;
    for (int i = 0; i < n; i++) {
      Msg m;
      m.type = C.coin(4) ? 0x18 : 4;
      if (C.coin(60)) m.type = C.byte();
      m.body = C.bytes(m.type == 0x18 ? (C.coin(3) ? body() : 1) : body());
      auto e = enc(m);
      s.insert(s.end(), e.begin(), e.end());
      if (m.type == 0x18 && !C.coin(12)) forced.push_back(s.size());   // a key update normally ends a record
      ends.push_back(s.size());
    }
    if (C.coin(3)) s.resize(s.size() - C.below(std::min<size_t>(s.size(), 12)));   // unfinished last message
    std::vector<size_t> c = cuts(s.size(), 1 + C.below(8));
    std::vector<size_t> all;
    size_t pos = 0;
    int style = C.below(4);
    if (style == 0) for (size_t i = 1; i < s.size() && i < 400; i++) all.push_back(i);          // byte by byte
    else if (style == 1) for (auto e : ends) for (size_t k = 0; k < 3; k++) { size_t q = e + C.below(6); if (q < s.size()) all.push_back(q); }
    else for (auto x : c) { pos += x; if (pos <= s.size()) all.push_back(pos); }
    for (auto f : forced) if (f <= s.size()) all.push_back(f);
    std::sort(all.begin(), all.end());
    if (C.coin(3)) for (int k = C.below(3); k > 0 && !all.empty(); k--) all.push_back(all[C.below(all.size())]);  // empty calls
    std::sort(all.begin(), all.end());
    history(s, all, C.coin(3) ? (long)C.below(all.size() + 1) : -1, C.coin());
  }
  return true;
}
