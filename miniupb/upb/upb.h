/* mini-upb: a small, self-contained stand-in for the parts of the upb runtime that the
 * generated code of s2a-core uses (the real upb is not installed in this sandbox).
 * It implements the protobuf wire format over upb's 2020/21 message layout tables. */
#ifndef MINIUPB_UPB_H_
#define MINIUPB_UPB_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef struct mini_block { struct mini_block *next; } mini_block;
typedef struct upb_arena { mini_block *head; } upb_arena;

static inline upb_arena *upb_arena_new(void) { return (upb_arena *)calloc(1, sizeof(upb_arena)); }
static inline void *upb_arena_malloc(upb_arena *a, size_t n) {
  mini_block *b = (mini_block *)malloc(sizeof(mini_block) + (n ? n : 1) + 8);
  if (!b) return NULL;
  b->next = a->head;
  a->head = b;
  return (void *)((char *)b + sizeof(mini_block));
}
static inline void upb_arena_free(upb_arena *a) {
  mini_block *b = a->head;
  while (b) { mini_block *n = b->next; free(b); b = n; }
  free(a);
}

typedef struct { const char *data; size_t size; } upb_strview;
static inline upb_strview upb_strview_make(const char *data, size_t size) {
  upb_strview r; r.data = data; r.size = size; return r;
}
static inline upb_strview upb_strview_makez(const char *data) { return upb_strview_make(data, strlen(data)); }
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}

#ifdef __cplusplus
}
#endif
#endif
