/* The allocator as the library calls it: which blocks it asks for and gives
   back during a call, and requests that are refused. */
#ifndef HEAP_H
#define HEAP_H
#include <errno.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#define HP_MAX 4096
typedef struct { uintptr_t p; size_t n; } HpBlk;
static HpBlk hp_blk[HP_MAX], hp_got[64], hp_gave[64]; /* live; of the current call */
static int hp_nblk, hp_ngot, hp_ngave, hp_refuse;
static int hp_on(void);

void *__real_malloc(size_t n);
void *__real_calloc(size_t k, size_t n);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
int __real_posix_memalign(void **p, size_t a, size_t n);
void *__real_aligned_alloc(size_t a, size_t n);
void *__real_memalign(size_t a, size_t n);

static void *hp_new(void *p, size_t n) {
  if (p == NULL) return p;
  if (hp_nblk < HP_MAX) hp_blk[hp_nblk++] = (HpBlk){(uintptr_t)p, n};
  if (hp_ngot < 64) hp_got[hp_ngot++] = (HpBlk){(uintptr_t)p, n};
  return p;
}
static void hp_del(void *p) {
  if (p == NULL) return;
  if (hp_ngave < 64) hp_gave[hp_ngave++] = (HpBlk){(uintptr_t)p, 0};
  for (int i = 0; i < hp_nblk; i++)
    if (hp_blk[i].p == (uintptr_t)p) {
      hp_blk[i] = hp_blk[--hp_nblk];
      return;
    }
}
#define HP_REFUSED (hp_refuse ? (errno = ENOMEM, 1) : 0)
void *__wrap_malloc(size_t n) { return !hp_on() ? __real_malloc(n) : HP_REFUSED ? NULL : hp_new(__real_malloc(n), n); }
void *__wrap_calloc(size_t k, size_t n) { return !hp_on() ? __real_calloc(k, n) : HP_REFUSED ? NULL : hp_new(__real_calloc(k, n), k * n); }
void *__wrap_realloc(void *p, size_t n) {
  if (!hp_on()) return __real_realloc(p, n);
  if (HP_REFUSED) return NULL;
  hp_del(p);
  return hp_new(__real_realloc(p, n), n);
}
void __wrap_free(void *p) { if (hp_on()) hp_del(p); __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
  if (!hp_on()) return __real_posix_memalign(p, a, n);
  if (HP_REFUSED) return ENOMEM;
  int r = __real_posix_memalign(p, a, n);
  if (r == 0) hp_new(*p, n);
  return r;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { return !hp_on() ? __real_aligned_alloc(a, n) : HP_REFUSED ? NULL : hp_new(__real_aligned_alloc(a, n), n); }
void *__wrap_memalign(size_t a, size_t n) { return !hp_on() ? __real_memalign(a, n) : HP_REFUSED ? NULL : hp_new(__real_memalign(a, n), n); }
#endif
