#ifndef MINIUPB_MSG_H_
#define MINIUPB_MSG_H_
#include "upb/upb.h"
#define UPB_INLINE static inline
#define UPB_SIZE(a, b) b
#define UPB_PTR_AT(msg, ofs, type) ((type *)((char *)(msg) + (ofs)))
#define UPB_READ_ONEOF(msg, fieldtype, offset, case_offset, case_val, def) \
  (*UPB_PTR_AT(msg, case_offset, int) == (case_val) ? *UPB_PTR_AT(msg, offset, fieldtype) : (def))
#define UPB_WRITE_ONEOF(msg, fieldtype, offset, value, case_offset, case_val) \
  *UPB_PTR_AT(msg, case_offset, int) = (case_val);                            \
  *UPB_PTR_AT(msg, offset, fieldtype) = (value);
#define _UPB_LABEL_MAP 4
#define _UPB_LABEL_PACKED 7

#ifdef __cplusplus
extern "C" {
#endif

typedef void upb_msg;
typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0: hasbit index, <0: ~offset of the oneof case */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;
typedef struct upb_msglayout {
  const struct upb_msglayout *const *submsgs;
  const upb_msglayout_field *fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t dense_below;
} upb_msglayout;

typedef struct { char *data; size_t len, cap, lg2; } upb_array;

static inline void *_upb_msg_new(const upb_msglayout *l, upb_arena *a) {
  void *p = upb_arena_malloc(a, l->size);
  if (p) memset(p, 0, l->size);
  return p;
}
static inline bool _upb_hasbit(const void *m, size_t i) { return (((const char *)m)[i / 8] >> (i % 8)) & 1; }
static inline void _upb_sethas(const void *m, size_t i) { ((char *)m)[i / 8] |= (char)(1 << (i % 8)); }
static inline uint32_t _upb_getoneofcase(const void *m, size_t o) { return (uint32_t)*UPB_PTR_AT(m, o, int32_t); }
static inline bool _upb_has_submsg_nohasbit(const void *m, size_t o) { return *UPB_PTR_AT(m, o, const void *) != NULL; }

static inline const void *_upb_array_accessor(const void *m, size_t o, size_t *n) {
  const upb_array *a = *UPB_PTR_AT(m, o, const upb_array *);
  if (n) *n = a ? a->len : 0;
  return a ? a->data : NULL;
}
static inline void *_upb_array_mutable_accessor(void *m, size_t o, size_t *n) {
  return (void *)_upb_array_accessor(m, o, n);
}
static inline bool mini_array_resize(void *m, size_t o, size_t n, int lg2, upb_arena *ar) {
  upb_array *a = *UPB_PTR_AT(m, o, upb_array *);
  if (!a) {
    a = (upb_array *)upb_arena_malloc(ar, sizeof(*a));
    if (!a) return false;
    memset(a, 0, sizeof(*a));
    a->lg2 = (size_t)lg2;
    *UPB_PTR_AT(m, o, upb_array *) = a;
  }
  if (n > a->cap || !a->data) {   /* like upb, a new array has room for four elements */
    size_t cap = a->cap ? a->cap * 2 : 4;
    if (cap < n) cap = n;
    char *d = (char *)upb_arena_malloc(ar, cap << lg2);
    if (!d) return false;
    memset(d, 0, cap << lg2);
    if (a->len) memcpy(d, a->data, a->len << lg2);
    a->data = d;
    a->cap = cap;
  }
  a->len = n;
  return true;
}
static inline void *_upb_array_resize_accessor2(void *m, size_t o, size_t n, int lg2, upb_arena *ar) {
  return mini_array_resize(m, o, n, lg2, ar) ? (*UPB_PTR_AT(m, o, upb_array *))->data : NULL;
}
static inline bool _upb_array_append_accessor2(void *m, size_t o, int lg2, const void *v, upb_arena *ar) {
  size_t n;
  _upb_array_accessor(m, o, &n);
  if (!mini_array_resize(m, o, n + 1, lg2, ar)) return false;
  memcpy((*UPB_PTR_AT(m, o, upb_array *))->data + (n << lg2), v, (size_t)1 << lg2);
  return true;
}

/* string->string maps: an array of (key, value) pairs, last writer wins */
typedef struct { upb_strview k, v; } mini_mapent;
static inline size_t _upb_msg_map_size(const void *m, size_t o) { size_t n; _upb_array_accessor(m, o, &n); return n; }
static inline mini_mapent *mini_map_find(const void *m, size_t o, const upb_strview *k) {
  size_t n, i;
  mini_mapent *e = (mini_mapent *)_upb_array_accessor(m, o, &n);
  for (i = 0; i < n; i++) if (upb_strview_eql(e[i].k, *k)) return &e[i];
  return NULL;
}
static inline bool _upb_msg_map_get(const void *m, size_t o, const void *k, size_t ks, void *v, size_t vs) {
  mini_mapent *e = mini_map_find(m, o, (const upb_strview *)k);
  (void)ks; (void)vs;
  if (!e) return false;
  if (v) *(upb_strview *)v = e->v;
  return true;
}
static inline void *_upb_msg_map_next(const void *m, size_t o, size_t *it) {
  size_t n;
  mini_mapent *e = (mini_mapent *)_upb_array_accessor(m, o, &n);
  if (*it >= n) return NULL;
  return &e[(*it)++];
}
static inline void _upb_msg_map_clear(void *m, size_t o) { upb_array *a = *UPB_PTR_AT(m, o, upb_array *); if (a) a->len = 0; }
static inline bool _upb_msg_map_set(void *m, size_t o, const void *k, size_t ks, void *v, size_t vs, upb_arena *a) {
  mini_mapent *e = mini_map_find(m, o, (const upb_strview *)k);
  mini_mapent ne;
  (void)ks; (void)vs;
  if (e) { e->v = *(upb_strview *)v; return true; }
  ne.k = *(const upb_strview *)k;
  ne.v = *(upb_strview *)v;
  return _upb_array_append_accessor2(m, o, 5, &ne, a);
}
static inline bool _upb_msg_map_delete(void *m, size_t o, const void *k, size_t ks) {
  mini_mapent *e = mini_map_find(m, o, (const upb_strview *)k);
  upb_array *a = *UPB_PTR_AT(m, o, upb_array *);
  (void)ks;
  if (!e) return false;
  *e = ((mini_mapent *)a->data)[a->len - 1];
  a->len--;
  return true;
}
static inline void _upb_msg_map_key(const void *m, void *k, size_t s) { (void)s; *(upb_strview *)k = ((const mini_mapent *)m)->k; }
static inline void _upb_msg_map_value(const void *m, void *v, size_t s) { (void)s; *(upb_strview *)v = ((const mini_mapent *)m)->v; }
static inline void _upb_msg_map_set_value(void *m, const void *v, size_t s) { (void)s; ((mini_mapent *)m)->v = *(const upb_strview *)v; }

#ifdef __cplusplus
}
#endif
#endif
