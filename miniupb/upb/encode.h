#ifndef MINIUPB_ENCODE_H_
#define MINIUPB_ENCODE_H_
#include "upb/decode.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { char *p; size_t n, cap; upb_arena *a; bool ok; } mini_out;
static inline void mini_put(mini_out *o, const void *s, size_t n) {
  if (!o->ok) return;
  if (o->n + n > o->cap) {
    size_t cap = (o->cap + n) * 2 + 16;
    char *q = (char *)upb_arena_malloc(o->a, cap);
    if (!q) { o->ok = false; return; }
    if (o->n) memcpy(q, o->p, o->n);
    o->p = q;
    o->cap = cap;
  }
  if (n) memcpy(o->p + o->n, s, n);
  o->n += n;
}
static inline void mini_putv(mini_out *o, uint64_t v) {
  do { uint8_t b = (uint8_t)(v & 0x7f); v >>= 7; if (v) b |= 0x80; mini_put(o, &b, 1); } while (v);
}
static inline uint64_t mini_load(const char *at, int t) {
  if (t == 8) return *(const bool *)at;
  if (t == 4) return *(const uint64_t *)at;
  if (t == 14) return (uint64_t)(int64_t)*(const int32_t *)at;
  return *(const uint32_t *)at;
}
static inline void mini_enc(mini_out *o, const char *m, const upb_msglayout *l);
static inline void mini_encsub(mini_out *o, uint32_t num, const char *sub, const upb_msglayout *sl) {
  mini_out s;
  memset(&s, 0, sizeof(s));
  s.a = o->a; s.ok = true;
  mini_enc(&s, sub, sl);
  if (!s.ok) o->ok = false;
  mini_putv(o, ((uint64_t)num << 3) | 2);
  mini_putv(o, s.n);
  mini_put(o, s.p, s.n);
}
static inline void mini_enc(mini_out *o, const char *m, const upb_msglayout *l) {
  int i;
  for (i = 0; i < l->field_count; i++) {
    const upb_msglayout_field *f = &l->fields[i];
    int t = f->descriptortype;
    bool scalar = t == 4 || t == 8 || t == 13 || t == 14;
    size_t n, j;
    if (f->label == _UPB_LABEL_MAP) {
      const mini_mapent *e = (const mini_mapent *)_upb_array_accessor(m, f->offset, &n);
      for (j = 0; j < n; j++) mini_encsub(o, f->number, (const char *)&e[j], l->submsgs[f->submsg_index]);
      continue;
    }
    if (f->label == 3 || f->label == _UPB_LABEL_PACKED) {
      const char *d = (const char *)_upb_array_accessor(m, f->offset, &n);
      if (n == 0) continue;
      if (scalar && f->label == _UPB_LABEL_PACKED) {
        mini_out s;
        memset(&s, 0, sizeof(s));
        s.a = o->a; s.ok = true;
        for (j = 0; j < n; j++) mini_putv(&s, mini_load(d + (j << mini_lg2(t)), t));
        if (!s.ok) o->ok = false;
        mini_putv(o, ((uint64_t)f->number << 3) | 2);
        mini_putv(o, s.n);
        mini_put(o, s.p, s.n);
        continue;
      }
      for (j = 0; j < n; j++) {
        const char *at = d + (j << mini_lg2(t));
        if (t == 11) { mini_encsub(o, f->number, *(const char *const *)at, l->submsgs[f->submsg_index]); continue; }
        if (scalar) { mini_putv(o, (uint64_t)f->number << 3); mini_putv(o, mini_load(at, t)); continue; }
        mini_putv(o, ((uint64_t)f->number << 3) | 2);
        mini_putv(o, ((const upb_strview *)at)->size);
        mini_put(o, ((const upb_strview *)at)->data, ((const upb_strview *)at)->size);
      }
      continue;
    }
    if (f->presence > 0 && !_upb_hasbit(m, (size_t)f->presence)) continue;
    if (f->presence < 0 && _upb_getoneofcase(m, (size_t)~f->presence) != f->number) continue;
    if (t == 11) {
      const char *sub = *UPB_PTR_AT(m, f->offset, const char *);
      if (sub) mini_encsub(o, f->number, sub, l->submsgs[f->submsg_index]);
      continue;
    }
    if (scalar) {
      uint64_t v = mini_load(m + f->offset, t);
      if (f->presence == 0 && v == 0) continue;
      mini_putv(o, (uint64_t)f->number << 3);
      mini_putv(o, v);
      continue;
    }
    {
      upb_strview sv = *UPB_PTR_AT(m, f->offset, upb_strview);
      if (f->presence == 0 && sv.size == 0) continue;
      mini_putv(o, ((uint64_t)f->number << 3) | 2);
      mini_putv(o, sv.size);
      mini_put(o, sv.data, sv.size);
    }
  }
}
static inline char *upb_encode(const void *m, const upb_msglayout *l, upb_arena *a, size_t *n) {
  mini_out o;
  memset(&o, 0, sizeof(o));
  o.a = a; o.ok = true;
  mini_enc(&o, (const char *)m, l);
  if (!o.ok) { *n = 0; return NULL; }
  *n = o.n;
  if (o.n == 0) { static char empty[1]; return empty; }
  return o.p;
}
#ifdef __cplusplus
}
#endif
#endif
