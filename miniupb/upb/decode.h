#ifndef MINIUPB_DECODE_H_
#define MINIUPB_DECODE_H_
#include "upb/msg.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { const char *p, *e; } mini_in;
static inline bool mini_varint(mini_in *d, uint64_t *v) {
  int s = 0;
  *v = 0;
  while (d->p < d->e && s < 70) {
    uint8_t b = (uint8_t)*d->p++;
    if (s < 64) *v |= (uint64_t)(b & 0x7f) << s;
    if (!(b & 0x80)) return true;
    s += 7;
  }
  return false;
}
static inline bool mini_skip(mini_in *d, int wt, int depth, uint32_t num) {
  uint64_t v;
  switch (wt) {
    case 0: return mini_varint(d, &v);
    case 1: if (d->e - d->p < 8) return false; d->p += 8; return true;
    case 5: if (d->e - d->p < 4) return false; d->p += 4; return true;
    case 2: if (!mini_varint(d, &v) || v > (uint64_t)(d->e - d->p)) return false; d->p += v; return true;
    case 3:
      if (depth > 60) return false;
      for (;;) {
        if (d->p >= d->e || !mini_varint(d, &v)) return false;
        if ((v & 7) == 4) return (uint32_t)(v >> 3) == num;
        if (!mini_skip(d, (int)(v & 7), depth + 1, (uint32_t)(v >> 3))) return false;
      }
    default: return false;
  }
}
static inline void mini_store(char *at, int type, uint64_t v) {
  if (type == 8) *(bool *)at = v != 0;
  else if (type == 4) *(uint64_t *)at = v;
  else *(uint32_t *)at = (uint32_t)v;
}
static inline int mini_lg2(int type) {
  switch (type) { case 8: return 0; case 4: return 3; case 9: case 12: return 4; case 11: return 3; default: return 2; }
}
static inline bool mini_decode(mini_in *d, char *m, const upb_msglayout *l, upb_arena *a, int depth) {
  if (depth > 100) return false;
  while (d->p < d->e) {
    uint64_t tag, v;
    int wt, i;
    const upb_msglayout_field *f = NULL;
    if (!mini_varint(d, &tag) || (tag >> 3) == 0) return false;
    wt = (int)(tag & 7);
    if (wt == 4) return false;
    for (i = 0; i < l->field_count; i++)
      if (l->fields[i].number == (uint32_t)(tag >> 3)) f = &l->fields[i];
    if (!f) { if (!mini_skip(d, wt, 0, (uint32_t)(tag >> 3))) return false; continue; }
    {
      int t = f->descriptortype;
      bool rep = f->label == 3 || f->label == _UPB_LABEL_PACKED;
      bool scalar = t == 4 || t == 8 || t == 13 || t == 14;
      char tmp[16];
      if (scalar) {
        if (wt == 2 && rep) {
          mini_in s;
          if (!mini_varint(d, &v) || v > (uint64_t)(d->e - d->p)) return false;
          s.p = d->p; s.e = d->p + v; d->p += v;
          while (s.p < s.e) {
            if (!mini_varint(&s, &v)) return false;
            mini_store(tmp, t, v);
            if (!_upb_array_append_accessor2(m, f->offset, mini_lg2(t), tmp, a)) return false;
          }
          continue;
        }
        if (wt != 0) { if (!mini_skip(d, wt, 0, f->number)) return false; continue; }
        if (!mini_varint(d, &v)) return false;
        if (rep) {
          mini_store(tmp, t, v);
          if (!_upb_array_append_accessor2(m, f->offset, mini_lg2(t), tmp, a)) return false;
          continue;
        }
        mini_store(m + f->offset, t, v);
      } else {
        if (wt != 2) { if (!mini_skip(d, wt, 0, f->number)) return false; continue; }
        if (!mini_varint(d, &v) || v > (uint64_t)(d->e - d->p)) return false;
        if (f->label == _UPB_LABEL_MAP) {
          const upb_msglayout *sl = l->submsgs[f->submsg_index];
          char *sub = (char *)_upb_msg_new(sl, a);
          mini_in s;
          s.p = d->p; s.e = d->p + v; d->p += v;
          if (!sub || !mini_decode(&s, sub, sl, a, depth + 1)) return false;
          if (!_upb_msg_map_set(m, f->offset, (upb_strview *)sub, 0, (upb_strview *)(sub + 16), 0, a)) return false;
          continue;
        }
        if (t == 11) {
          const upb_msglayout *sl = l->submsgs[f->submsg_index];
          char *sub = NULL;
          mini_in s;
          s.p = d->p; s.e = d->p + v; d->p += v;
          if (!rep) {
            bool set = f->presence < 0 ? _upb_getoneofcase(m, (size_t)~f->presence) == f->number
                                       : *UPB_PTR_AT(m, f->offset, char *) != NULL;
            if (set) sub = *UPB_PTR_AT(m, f->offset, char *);
          }
          if (!sub) sub = (char *)_upb_msg_new(sl, a);
          if (!sub || !mini_decode(&s, sub, sl, a, depth + 1)) return false;
          if (rep) {
            if (!_upb_array_append_accessor2(m, f->offset, 3, &sub, a)) return false;
            continue;
          }
          *UPB_PTR_AT(m, f->offset, char *) = sub;
        } else {
          upb_strview sv;
          char *copy = (char *)upb_arena_malloc(a, v);
          if (!copy) return false;
          memcpy(copy, d->p, v);
          sv = upb_strview_make(copy, v);
          d->p += v;
          if (rep) {
            if (!_upb_array_append_accessor2(m, f->offset, 4, &sv, a)) return false;
            continue;
          }
          *UPB_PTR_AT(m, f->offset, upb_strview) = sv;
        }
      }
      if (f->presence > 0) _upb_sethas(m, (size_t)f->presence);
      else if (f->presence < 0) *UPB_PTR_AT(m, ~f->presence, int32_t) = (int32_t)f->number;
    }
  }
  return true;
}
static inline bool _upb_decode(const char *b, size_t n, void *m, const upb_msglayout *l, upb_arena *a, int opt) {
  mini_in d;
  (void)opt;
  d.p = b; d.e = b + n;
  return mini_decode(&d, (char *)m, l, a, 0);
}
static inline bool upb_decode(const char *b, size_t n, void *m, const upb_msglayout *l, upb_arena *a) {
  return _upb_decode(b, n, m, l, a, 0);
}
#ifdef __cplusplus
}
#endif
#endif
