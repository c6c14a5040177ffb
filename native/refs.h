// Reference models shared by the oracles: one connection direction and the handshake parser.
#ifndef VERIF_REFS_H_
#define VERIF_REFS_H_
#include "common.h"

struct HalfRef {
  Alg alg; bool h384; Bytes secret, key, iv; uint64_t seq; bool over = false, dead = false;
  void derive() { key = ref_label(h384, secret, "key", alg == A128 ? 16 : 32); iv = ref_label(h384, secret, "iv", 12); }
  void update() { secret = ref_label(h384, secret, "traffic upd", secret.size()); derive(); seq = 0; over = false; }
  bool usable() { return !over && !dead; }
  Bytes nonce() {
    Bytes n = iv;
    for (int i = 0; i < 8; i++) n[4 + i] ^= (uint8_t)(seq >> (56 - 8 * i));
    if (++seq == 0) over = true;
    return n;
  }
};

inline uint64_t seqno() {
  switch (C.below(5)) {
    case 0: return 0;
    case 1: return ~0ULL - C.below(6);
    case 2: { uint64_t b = 1ULL << C.below(64); return b - C.below(3); }
    case 3: return (1ULL << (8 * (1 + C.below(7)))) - 1 - C.below(3);
    default: return C.next();
  }
}

struct Msg { uint8_t type; Bytes body; };
inline Bytes enc(const Msg& m) {
  Bytes r = {m.type, (uint8_t)(m.body.size() >> 16), (uint8_t)(m.body.size() >> 8), (uint8_t)m.body.size()};
  r.insert(r.end(), m.body.begin(), m.body.end());
  return r;
}

// Byte-at-a-time reference parser.
struct HsRef {
  Bytes cur;             // bytes of the message in progress
  std::vector<Bytes> tickets;
  size_t kept = 0;
  bool retrieved = false;
  enum R { OK, ERR };
  bool saw_ku, saw_ticket, done_ku; int ku_type;
  bool complete() { return cur.size() >= 4 && cur.size() == 4 + ((size_t)cur[1] << 16 | cur[2] << 8 | cur[3]); }
  R feed(const uint8_t* p, size_t n) {
    saw_ku = saw_ticket = done_ku = false;
    ku_type = 0xff;
    for (size_t i = 0; i < n; i++) {
      if (done_ku) return ERR;   // a key update must end the plaintext
      cur.push_back(p[i]);
      if (cur.size() == 1 && cur[0] != 4 && cur[0] != 0x18) return ERR;
      (cur[0] == 4 ? saw_ticket : saw_ku) = true;
      if (complete()) {
        if (cur[0] == 4) { if (!retrieved && kept < 5) { tickets.push_back(cur); kept++; } }
        else { done_ku = true; ku_type = cur.size() > 4 ? cur[4] : 0xff; }
        cur.clear();
      }
    }
    return OK;
  }
};

#endif
