/*
 * Conformance driver: reads a script (one command per line), executes every
 * command on the real library and writes one JSON event per command, to be
 * checked against the TLA+ specification.  See /verif/DESIGN.md.
 *
 *   driver SCRIPT OUT [threads [near|far [rounds]]]
 *
 * Lines:  R                      new history (reset registers and contexts)
 *         F fd rep op c d a b bit [hex]   field command
 *         B pl op args...        byte-level command
 *         Q script...            random source command
 *         O op ...                      objects: sizes, allocation, release, printing
 *         P fd op rep nq np hexq hexp   point formula (with points.c)
 *         M fd op hex                   arithmetic modulo the group order (with points.c)
 *         L op ...                      a call on a message of any length: pre, n zero bytes, post
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include "faz_fp_avx2.h"
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"
#include "faz_hash_avx2.h"
#include "multi_hash.h"
#include "prng.h"
#include "sha3.h"
#include "sha512.h"

/* entry points that are not part of the public headers: optional */
#ifdef NO_INTERNAL /* functions of other names or arguments: their commands report "absent" */
#define map_to_curve ((void (*)())0)
#define map_to_curve_2w ((void (*)())0)
#define hash_to_field ((void (*)())0)
#define hash_to_field_2w ((void (*)())0)
#define sha512_2w_avx ((void (*)())0)
#else
#pragma weak map_to_curve
#pragma weak map_to_curve_2w
#pragma weak hash_to_field
#pragma weak hash_to_field_2w
#pragma weak sha512_2w_avx
#endif
extern void modular_reduction_ed25519(uint8_t *a);
#pragma weak modular_reduction_ed25519
extern volatile void *spc_memset(volatile void *dst, int c, size_t len);
#pragma weak spc_memset
extern void sha512_2w_avx_256b(uint8_t *message[2], uint8_t *digest[2]); /* 32-byte messages */
#pragma weak sha512_2w_avx_256b

#define MAXARG 16
#define SLOT (4u << 20)
#define PAGE 4096u
#define NSLOT 10
#define CAN 512
#define NREG 8
#define NCTX 9 /* the last one serves one-shot calls */

/* ------------------------------------------------------------------ */
/* per-thread state                                                    */
typedef struct { uint8_t *base; } Slot;       /* PAGE guard | SLOT | PAGE guard */
typedef struct { uint8_t *p; size_t n; uint8_t *lo, *hi; uint8_t *copy; int out; } Buf;

enum { RF, RG, RW, RV, RR, RT, RQ, NREP };
static const char *repname[NREP] = {"f", "g", "w", "v", "r", "t", "q"};
#define REGSZ 640 /* 64 canary + up to 512 value + canary */

typedef struct {
  int alg; /* 0 none 512 384 (sph), 3000+bits (sha3), 128/256 (shake) */
  sph_sha512_context *sph;
  hashState *k3;
} HCtx;

typedef struct {
  Slot slot[NSLOT];
  Buf buf[NSLOT];
  int nbuf;
  uint8_t *regs; /* [2][NREP][NREG][REGSZ] */
  uint8_t *snap;
  HCtx ctx[NCTX];
  char *o;
  size_t on, ocap;
  sigjmp_buf jb;
  volatile int armed;
  volatile int sig;
} TS;

static __thread TS *T;
static int single = 1;

static void emit(const char *fmt, ...) {
  va_list ap;
  for (;;) {
    va_start(ap, fmt);
    int k = vsnprintf(T->o + T->on, T->ocap - T->on, fmt, ap);
    va_end(ap);
    if ((size_t)k + 1 < T->ocap - T->on) {
      T->on += k;
      return;
    }
    T->ocap = T->ocap * 2 + k;
    T->o = realloc(T->o, T->ocap);
  }
}
static void emit_hex(const uint8_t *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  while (T->ocap - T->on < 2 * n + 16) {
    T->ocap = T->ocap * 2 + 2 * n;
    T->o = realloc(T->o, T->ocap);
  }
  for (size_t i = 0; i < n; i++) {
    T->o[T->on++] = d[p[i] >> 4];
    T->o[T->on++] = d[p[i] & 15];
  }
  T->o[T->on] = 0;
}

/* ------------------------------------------------------------------ */
static void onsig(int s) {
  if (T && T->armed) {
    T->armed = 0;
    T->sig = s;
    siglongjmp(T->jb, 1);
  }
  signal(s, SIG_DFL);
  raise(s);
}
static const char *signame(int s) {
  switch (s) {
    case SIGSEGV: return "segv";
    case SIGBUS: return "bus";
    case SIGILL: return "ill";
    case SIGFPE: return "fpe";
    case SIGABRT: return "abort";
    case SIGALRM: return "hang";
    case SIGTRAP: return "trap";
  }
  return "signal";
}
/* what a call finds in the memory of its stack frames is not its business:
   it is different from call to call */
static __thread unsigned painted;
static __attribute__((noinline)) void paint(void) {
  uint64_t a[3072]; /* 24 KB */
  unsigned k = painted++;
  uint64_t x = k * 0x9e3779b97f4a7c15u + 1;
  for (int i = 0; i < 3072; i++) {
    switch (k % 4) {
      case 0: a[i] = ~0ull; break;
      case 1: x ^= x << 13, x ^= x >> 7, x ^= x << 17, a[i] = x; break;
      case 2: a[i] = 0; break;
      default: a[i] = 0x0101010101010101u * (uint8_t)(k >> 2);
    }
  }
  __asm__ __volatile__("" : : "r"(a) : "memory");
}
/* what a call leaves behind in the memory of its stack frames and in static data:
   the longest run of consecutive bytes of a secret, at any bit offset */
#define UNDER 24576
static uint8_t *after_call; /* copy of the memory below the frame, when asked for */
#define LEFT()                                                                          \
  do {                                                                                  \
    if (after_call) {                                                                   \
      void *_d = after_call, *_s;                                                       \
      size_t _n = UNDER;                                                                \
      __asm__ __volatile__("leaq -24576(%%rsp),%1\n\tcld\n\trep movsb"                 \
                           : "+D"(_d), "=&S"(_s), "+c"(_n) : : "memory", "cc");         \
    }                                                                                   \
  } while (0)
extern char __data_start[], _end[];
static int longest(const uint8_t *m, size_t mn, const uint8_t *k, size_t kn) {
  int best = 0;
  for (size_t w = 0; w + 8 <= kn; w++) {
    const uint8_t *at = m, *q;
    int seen[256] = {0}, dist = 0;
    for (int i = 0; i < 8; i++) dist += !seen[k[w + i]]++;
    if (dist < 6) continue; /* says nothing */
    while ((q = memmem(at, m + mn - at, k + w, 8)) != NULL) {
      int n = 8;
      while (w + n < kn && q + n < m + mn && q[n] == k[w + n]) n++;
      if (n > best) best = n;
      at = q + 1;
    }
  }
  return best;
}
static int left_of(const uint8_t *sk, size_t kn) {
  uint8_t sh[64];
  int best = 0;
  for (int s = 0; s < 8; s++) {
    for (size_t i = 0; i < kn; i++) sh[i] = (uint8_t)(sk[i] >> s | (i + 1 < kn ? sk[i + 1] : 0) << (8 - s));
    int a = longest(after_call, UNDER, sh, kn), b, c;
    /* static data, without the copy itself */
    b = longest((uint8_t *)__data_start, after_call - (uint8_t *)__data_start, sh, kn);
    c = longest(after_call + UNDER, (uint8_t *)_end - after_call - UNDER, sh, kn);
    if (a > best) best = a;
    if (b > best) best = b;
    if (c > best) best = c;
  }
  return best;
}
#include "heap.h"
static int hp_on(void) { return single && T && T->armed; }
/* run STMT, with faults turned into a status */
static int guard_secs = 20;
#define GUARDED(st, STMT)                                   \
  do {                                                      \
    struct itimerval _it = {{0, 0}, {guard_secs, 0}}, _z = {{0, 0}, {0, 0}}; \
    if (single) setitimer(ITIMER_REAL, &_it, NULL);         \
    if (sigsetjmp(T->jb, 1) == 0) {                         \
      paint();                                              \
      if (single) hp_ngot = hp_ngave = 0;                   \
      T->armed = 1;                                         \
      STMT;                                                 \
      T->armed = 0;                                         \
      st = "ok";                                            \
    } else {                                                \
      st = signame(T->sig);                                 \
    }                                                       \
    if (single) setitimer(ITIMER_REAL, &_z, NULL);          \
  } while (0)

/* ------------------------------------------------------------------ */
/* buffers with canaries, chosen alignment and guard pages             */
static uint8_t can(const uint8_t *p) { return (uint8_t)(0x5a ^ ((uintptr_t)p * 29)); }

static Buf *mkbuf(const char *pl, const uint8_t *in, size_t n, int out) {
  int i = T->nbuf++;
  Buf *b = &T->buf[i];
  uint8_t *s = T->slot[i].base + PAGE, *e = s + SLOT;
  int k = atoi(pl + 1);
  b->n = n;
  b->out = out;
  switch (pl[0]) {
    case 'm': b->p = s + 2 * PAGE + 1 + (7 * i + k) % 63; break;
    case 'e': b->p = e - n; break;
    case 's': b->p = s; break;
    default: b->p = s + 2 * PAGE; break;
  }
  b->lo = b->p - CAN < s ? s : b->p - CAN;
  b->hi = b->p + n + CAN > e ? e : b->p + n + CAN;
  for (uint8_t *q = b->lo; q < b->p; q++) *q = can(q);
  for (uint8_t *q = b->p + n; q < b->hi; q++) *q = can(q);
  if (in) memcpy(b->p, in, n);
  else memset(b->p, 0xc3, n);
  b->copy = malloc(n + 1);
  memcpy(b->copy, b->p, n);
  return b;
}
/* 1 when nothing but the output buffers has been written */
static int bufs_clean(void) {
  int ok = 1;
  for (int i = 0; i < T->nbuf; i++) {
    Buf *b = &T->buf[i];
    for (uint8_t *q = b->lo; q < b->p; q++) ok &= *q == can(q);
    for (uint8_t *q = b->p + b->n; q < b->hi; q++) ok &= *q == can(q);
    if (!b->out) ok &= memcmp(b->p, b->copy, b->n) == 0;
    free(b->copy);
  }
  T->nbuf = 0;
  return ok;
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t *unhex(const char *s, size_t *n) {
  size_t l = s[0] == '-' ? 0 : strlen(s) / 2;
  uint8_t *r = malloc(l + 1);
  for (size_t i = 0; i < l; i++) r[i] = (uint8_t)(hexv(s[2 * i]) << 4 | hexv(s[2 * i + 1]));
  *n = l;
  return r;
}

/* ------------------------------------------------------------------ */
/* field registers                                                     */
static int nd(int fd) { return fd == 255 ? 4 : 7; }
static int rsize(int fd, int rep) {
  int n = nd(fd);
  switch (rep) {
    case RF: return 8 * n;
    case RG: return 16 * n;
    case RW: return 16 * n;
    case RV: return 32 * n;
    case RR: return fd == 255 ? 96 : 128;
    case RT: return fd == 255 ? 160 : 256;
    default: return fd == 255 ? 320 : 512;
  }
}
static uint8_t *rbase(int fd, int rep, int k) {
  return T->regs + (((fd == 448) * NREP + rep) * NREG + k) * REGSZ;
}
static void *reg(int fd, int rep, int k) { return rbase(fd, rep, k) + 64; }
static int nlanes(int rep) { return rep == RG || rep == RV || rep == RT ? 2 : rep == RQ ? 4 : 1; }
static int ndigits(int fd, int rep) {
  switch (rep) {
    case RF: case RG: return nd(fd);
    case RW: case RV: return 2 * nd(fd);
    default: return fd == 255 ? 10 : 16;
  }
}
/* word index of digit k (in order of weight) of a lane */
static int widx(int fd, int rep, int lane, int k) {
  int H = fd == 255 ? 5 : 8, v = k < H ? 2 * k : 2 * (k - H) + 1;
  switch (rep) {
    case RF: case RW: return k;
    case RG: return lane * nd(fd) + k;
    case RV: return lane * 2 * nd(fd) + k;
    case RR: return v;
    case RT: return 4 * (k % H) + 2 * lane + k / H;
    default: return 4 * v + lane;
  }
}
static void emit_reg(const char *name, int fd, int rep, int k) {
  uint64_t *w = reg(fd, rep, k);
  emit(",\"%s\":[", name);
  for (int l = 0; l < nlanes(rep); l++) {
    emit("%s\"w:", l ? "," : "");
    for (int d = 0; d < ndigits(fd, rep); d++) {
      uint64_t x = w[widx(fd, rep, l, d)];
      emit("%s%llx", d ? "." : "", (unsigned long long)x);
    }
    emit("\"");
  }
  emit("]");
}
static void regs_reset(void) {
  size_t tot = 2 * NREP * NREG * REGSZ;
  memset(T->regs, 0xa7, tot);
  for (int f = 0; f < 2; f++)
    for (int r = 0; r < NREP; r++)
      for (int k = 0; k < NREG; k++) memset(reg(f ? 448 : 255, r, k), 0, rsize(f ? 448 : 255, r));
}

static int parse_rep(const char *s) {
  for (int i = 0; i < NREP; i++)
    if (!strcmp(s, repname[i])) return i;
  return -1;
}

/* executes one field operation; returns 0 when the operation is absent */
#define EQ(x) (!strcmp(op, x))
#define HAVE(f) if (!(f)) return 0
static int fieldop(const PrimeField *P, int fd, int rep, const char *op, int c, int d, int a, int b,
                   int bit, uint8_t *bytes, int *rc, uint64_t vec[4]) {
  __m256i vv;
  (void)d;
  if (EQ("set")) return 1;
  switch (rep) {
    case RF: {
      const Arith_1w *A = &P->_1w_full.arith;
      const Arith_1w_fullradix *X = &P->_1w_full.arithex;
      uint64_t *C = reg(fd, RF, c), *Aa = reg(fd, RF, a), *B = reg(fd, RF, b);
      if (EQ("add")) { HAVE(A->add); A->add(C, Aa, B); return 1; }
      if (EQ("sub")) { HAVE(A->sub); A->sub(C, Aa, B); return 1; }
      if (EQ("mul")) { HAVE(A->mul); A->mul(C, Aa, B); return 1; }
      if (EQ("neg")) { HAVE(A->neg); A->neg(C); return 1; }
      if (EQ("sqr")) { HAVE(A->sqr); A->sqr(C); return 1; }
      if (EQ("inv")) { HAVE(A->inv); A->inv(C, Aa); return 1; }
      if (EQ("srt")) { HAVE(A->srt); A->srt(C, Aa); return 1; }
      if (EQ("cmp")) { HAVE(A->cmp); *rc = A->cmp(Aa, B); return 1; }
      if (EQ("cmv")) { HAVE(A->cmv); A->cmv(bit, C, Aa, B); return 1; }
      if (EQ("sgn")) { HAVE(A->sgn); *rc = A->sgn(Aa); return 1; }
      if (EQ("prime")) { HAVE(A->prime); A->prime(C); return 1; }
      if (EQ("copy")) { A->misc.copy(C, Aa); return 1; }
      if (EQ("zero")) { A->misc.zero(C); return 1; }
      if (EQ("ser")) { A->misc.ser(bytes, Aa); return 1; }
      if (EQ("print")) { HAVE(A->misc.print); A->misc.print((FILE *)bytes, Aa); return 1; }
      if (EQ("unser")) { A->misc.unser(C, bytes); return 1; }
      if (EQ("mula24")) { HAVE(X->mula24); X->mula24(C, Aa); return 1; }
      if (EQ("intmul")) { HAVE(X->intmul); X->intmul(reg(fd, RW, c), Aa, B); return 1; }
      if (EQ("intsqr")) { HAVE(X->intsqr); X->intsqr(reg(fd, RW, c), Aa); return 1; }
      if (EQ("reduce")) { HAVE(X->reduce); X->reduce(C, reg(fd, RW, a)); return 1; }
      if (EQ("intmul2")) { HAVE(X->intmul2); X->intmul2(reg(fd, RV, c), reg(fd, RG, a), reg(fd, RG, b)); return 1; }
      if (EQ("intsqr2")) { HAVE(X->intsqr2); X->intsqr2(reg(fd, RV, c), reg(fd, RG, a)); return 1; }
      if (EQ("reduce2")) { HAVE(X->reduce2); X->reduce2(reg(fd, RG, c), reg(fd, RV, a)); return 1; }
      return -1;
    }
    case RR: {
      const Arith_1w *A = &P->_1w_red.arith;
      const Arith_1w_redradix *X = &P->_1w_red.arithex;
      uint64_t *C = reg(fd, RR, c), *Aa = reg(fd, RR, a), *B = reg(fd, RR, b);
      if (EQ("add")) { HAVE(A->add); A->add(C, Aa, B); return 1; }
      if (EQ("sub")) { HAVE(A->sub); A->sub(C, Aa, B); return 1; }
      if (EQ("mul")) { HAVE(A->mul); A->mul(C, Aa, B); return 1; }
      if (EQ("neg")) { HAVE(A->neg); A->neg(C); return 1; }
      if (EQ("sqr")) { HAVE(A->sqr); A->sqr(C); return 1; }
      if (EQ("inv")) { HAVE(A->inv); A->inv(C, Aa); return 1; }
      if (EQ("srt")) { HAVE(A->srt); A->srt(C, Aa); return 1; }
      if (EQ("cmp")) { HAVE(A->cmp); *rc = A->cmp(Aa, B); return 1; }
      if (EQ("cmv")) { HAVE(A->cmv); A->cmv(bit, C, Aa, B); return 1; }
      if (EQ("sgn")) { HAVE(A->sgn); *rc = A->sgn(Aa); return 1; }
      if (EQ("prime")) { HAVE(A->prime); A->prime(C); return 1; }
      if (EQ("copy")) { A->misc.copy(C, Aa); return 1; }
      if (EQ("zero")) { A->misc.zero(C); return 1; }
      if (EQ("ser")) { A->misc.ser(bytes, Aa); return 1; }
      if (EQ("print")) { HAVE(A->misc.print); A->misc.print((FILE *)bytes, Aa); return 1; }
      if (EQ("unser")) { A->misc.unser(C, bytes); return 1; }
      if (EQ("addsub")) { HAVE(X->addsub); X->addsub(Aa, B); return 1; }
      if (EQ("intmul")) { HAVE(X->intmul); X->intmul(C, Aa, B); return 1; }
      if (EQ("compress")) { HAVE(X->compress); X->compress(C); return 1; }
      if (EQ("compressfast")) { HAVE(X->compressfast); X->compressfast(C); return 1; }
      return -1;
    }
    case RT: {
      const Arith_2w *A = &P->_2w_red.arith;
      const Arith_2w_redradix *X = &P->_2w_red.arithex;
      __m256i *C = reg(fd, RT, c), *Aa = reg(fd, RT, a), *B = reg(fd, RT, b);
      if (EQ("add")) { HAVE(A->add); A->add(C, Aa, B); return 1; }
      if (EQ("sub")) { HAVE(A->sub); A->sub(C, Aa, B); return 1; }
      if (EQ("mul")) { HAVE(A->mul); A->mul(C, Aa, B); return 1; }
      if (EQ("neg")) { HAVE(A->neg); A->neg(C); return 1; }
      if (EQ("ngz")) { HAVE(A->ngz); A->ngz(C, Aa); return 1; }
      if (EQ("sqr")) { HAVE(A->sqr); A->sqr(C); return 1; }
      if (EQ("cmp")) { HAVE(A->cmp); vv = A->cmp(Aa, B); memcpy(vec, &vv, 32); *rc = 2; return 1; }
      if (EQ("sgn")) { HAVE(A->sgn); vv = A->sgn(Aa); memcpy(vec, &vv, 32); *rc = 2; return 1; }
      if (EQ("cmv")) {
        HAVE(A->cmv);
        vv = _mm256_set_epi64x(0, (bit >> 1) & 1, 0, bit & 1);
        A->cmv(vv, C, Aa, B);
        return 1;
      }
      if (EQ("copy")) { A->misc.copy(C, Aa); return 1; }
      if (EQ("zero")) { A->misc.zero(C); return 1; }
      if (EQ("ser")) { A->misc.ser(bytes, Aa); return 1; }
      if (EQ("print")) { HAVE(A->misc.print); A->misc.print((FILE *)bytes, Aa); return 1; }
      if (EQ("unser")) { A->misc.unser(C, bytes); return 1; }
      if (EQ("addsub")) { HAVE(X->addsub); X->addsub(Aa, B); return 1; }
      if (EQ("deinter")) { HAVE(X->deinter); X->deinter(reg(fd, RR, c), reg(fd, RR, d), Aa); return 1; }
      if (EQ("inter")) { HAVE(X->inter); X->inter(C, reg(fd, RR, a), reg(fd, RR, b)); return 1; }
      if (EQ("intmul")) { HAVE(X->intmul); X->intmul(C, Aa, B); return 1; }
      if (EQ("intsqr")) { HAVE(X->intsqr); X->intsqr(C); return 1; }
      if (EQ("compress")) { HAVE(X->compress); X->compress(C); return 1; }
      if (EQ("compressfast")) { HAVE(X->compressfast); X->compressfast(C); return 1; }
      if (EQ("compress2")) { HAVE(X->compress2); X->compress2(Aa, B); return 1; }
      return -1;
    }
    case RQ: {
      const Arith_4w *A = &P->_4w_red.arith;
      const Arith_4w_redradix *X = &P->_4w_red.arithex;
      __m256i *C = reg(fd, RQ, c), *D = reg(fd, RQ, d), *Aa = reg(fd, RQ, a), *B = reg(fd, RQ, b);
      if (EQ("add")) { HAVE(A->add); A->add(C, Aa, B); return 1; }
      if (EQ("sub")) { HAVE(A->sub); A->sub(C, Aa, B); return 1; }
      if (EQ("mul")) { HAVE(A->mul); A->mul(C, Aa, B); return 1; }
      if (EQ("neg")) { HAVE(A->neg); A->neg(C); return 1; }
      if (EQ("ngz")) { HAVE(A->ngz); A->ngz(C, Aa); return 1; }
      if (EQ("sqr")) { HAVE(A->sqr); A->sqr(C); return 1; }
      if (EQ("srt")) { HAVE(A->srt); A->srt(C, Aa); return 1; }
      if (EQ("cmp")) { HAVE(A->cmp); vv = A->cmp(Aa, B); memcpy(vec, &vv, 32); *rc = 2; return 1; }
      if (EQ("copy")) { A->misc.copy(C, Aa); return 1; }
      if (EQ("zero")) { A->misc.zero(C); return 1; }
      if (EQ("ser")) { A->misc.ser(bytes, Aa); return 1; }
      if (EQ("print")) { HAVE(A->misc.print); A->misc.print((FILE *)bytes, Aa); return 1; }
      if (EQ("unser")) { A->misc.unser(C, bytes); return 1; }
      if (EQ("addsub")) { HAVE(X->addsub); X->addsub(C, D, Aa, B); return 1; }
      if (EQ("addsublar")) { HAVE(X->addsublar); X->addsublar(Aa, B); return 1; }
      if (EQ("intmul")) { HAVE(X->intmul); X->intmul(C, Aa, B); return 1; }
      if (EQ("intsqr")) { HAVE(X->intsqr); X->intsqr(C); return 1; }
      if (EQ("compress")) { HAVE(X->compress); X->compress(C); return 1; }
      if (EQ("compressfast")) { HAVE(X->compressfast); X->compressfast(C); return 1; }
      if (EQ("compress2")) { HAVE(X->compress2); X->compress2(Aa, B); return 1; }
      if (EQ("new_compressfast2")) { HAVE(X->new_compressfast2); X->new_compressfast2(Aa, B); return 1; }
      return -1;
    }
    case RG: case RW: case RV:
      return 1; /* only "set" */
  }
  return -1;
}

/* which registers an operation names: out of its own rep by default */
static void opregs(int rep, const char *op, int *rc_, int *rd_, int *ra_, int *rb_) {
  *rc_ = *rd_ = *ra_ = *rb_ = -1;
#define SETR(c_, d_, a_, b_) (*rc_ = c_, *rd_ = d_, *ra_ = a_, *rb_ = b_)
  if (EQ("add") || EQ("sub") || EQ("mul") || EQ("cmv")) SETR(rep, -1, rep, rep);
  else if (EQ("neg") || EQ("sqr") || EQ("compress") || EQ("compressfast") || EQ("zero") ||
           EQ("unser") || EQ("prime") || EQ("set"))
    SETR(rep, -1, -1, -1);
  else if (EQ("inv") || EQ("srt") || EQ("copy") || EQ("ngz") || EQ("mula24")) SETR(rep, -1, rep, -1);
  else if (EQ("cmp") || EQ("compress2") || EQ("new_compressfast2") || EQ("addsublar"))
    SETR(-1, -1, rep, rep);
  else if (EQ("sgn") || EQ("ser") || EQ("print")) SETR(-1, -1, rep, -1);
  else if (EQ("addsub")) {
    if (rep == RQ) SETR(rep, rep, rep, rep);
    else SETR(-1, -1, rep, rep);
  } else if (EQ("intmul")) SETR(rep == RF ? RW : rep, -1, rep, rep);
  else if (EQ("intsqr")) {
    if (rep == RF) SETR(RW, -1, rep, -1);
    else SETR(rep, -1, -1, -1);
  } else if (EQ("reduce")) SETR(RF, -1, RW, -1);
  else if (EQ("intmul2")) SETR(RV, -1, RG, RG);
  else if (EQ("intsqr2")) SETR(RV, -1, RG, -1);
  else if (EQ("reduce2")) SETR(RG, -1, RV, -1);
  else if (EQ("inter")) SETR(RT, -1, RR, RR);
  else if (EQ("deinter")) SETR(RR, RR, RT, -1);
}

static void do_field(char **v, int n, long id) {
  int fd = atoi(v[1]), rep = parse_rep(v[2]);
  const char *op = v[3];
  int c = atoi(v[4]), d = atoi(v[5]), a = atoi(v[6]), b = atoi(v[7]), bit = atoi(v[8]);
  const PrimeField *P = fd == 255 ? &Fp25519 : &Fp448;
  const char *st;
  int rc = 0, have = 0, ok = 1;
  uint64_t vec[4] = {0};
  size_t tot = 2 * NREP * NREG * REGSZ, hn = 0;
  uint8_t *hex = n > 9 ? unhex(v[9], &hn) : NULL;
  size_t bs = (size_t)8 * nd(fd) * (rep == RT ? 2 : rep == RQ ? 4 : 1);
  Buf *bb = NULL;
  int r_c, r_d, r_a, r_b;
  opregs(rep, op, &r_c, &r_d, &r_a, &r_b);
  memcpy(T->snap, T->regs, tot);
  char pl[8] = {"amse"[(id >> 3) & 3], '0' + (id & 7), 0};
  if (EQ("ser")) bb = mkbuf(pl, NULL, bs, 1);
  if (EQ("unser")) bb = mkbuf(pl, hex, bs, 0);
  if (EQ("set")) { /* hex: lane-major digits of 8 bytes, little endian */
    uint64_t *w = reg(fd, rep, c);
    size_t q = 0;
    for (int l = 0; l < nlanes(rep); l++)
      for (int k = 0; k < ndigits(fd, rep); k++, q += 8)
        memcpy(w + widx(fd, rep, l, k), hex + q, 8);
  }
  char *text = NULL;
  size_t ntext = 0;
  FILE *file = EQ("print") ? open_memstream(&text, &ntext) : NULL;
  GUARDED(st, have = fieldop(P, fd, rep, op, c, d, a, b, bit, file ? (uint8_t *)file : bb ? bb->p : NULL, &rc, vec));
  if (file) fclose(file);
  if (have == 0 && !strcmp(st, "ok")) st = "absent";
  if (have < 0) st = "badop";
  /* nothing but the named registers may have changed */
  for (int f = 0; f < 2; f++)
    for (int r = 0; r < NREP; r++)
      for (int k = 0; k < NREG; k++) {
        int F = f ? 448 : 255;
        uint8_t *now = rbase(F, r, k), *old = T->snap + (now - T->regs);
        int named = F == fd && ((r == r_c && k == c) || (r == r_d && k == d) ||
                                (r == r_a && k == a) || (r == r_b && k == b));
        if (named) {
          ok &= memcmp(now, old, 64) == 0;
          size_t e = 64 + rsize(F, r);
          ok &= memcmp(now + e, old + e, REGSZ - e) == 0;
        } else {
          ok &= memcmp(now, old, REGSZ) == 0;
        }
      }
  emit("{\"id\":%ld,\"k\":\"F\",\"fd\":%d,\"rep\":\"%s\",\"op\":\"%s\",\"c\":%d,\"d\":%d,\"a\":%d,\"b\":%d,\"bit\":%d,\"rc\":%d,\"st\":\"%s\"",
       id, fd, v[2], op, c, d, a, b, bit, rc, st);
  if (r_c >= 0) emit_reg("oc", fd, r_c, c);
  if (r_d >= 0) emit_reg("od", fd, r_d, d);
  if (r_a >= 0) emit_reg("oa", fd, r_a, a);
  if (r_b >= 0) emit_reg("ob", fd, r_b, b);
  if (EQ("cmp") || EQ("sgn")) emit(",\"vec\":\"w:%llx.%llx.%llx.%llx\"", (unsigned long long)vec[0],
      (unsigned long long)vec[1], (unsigned long long)vec[2], (unsigned long long)vec[3]);
  if (bb) {
    emit(",\"x\":\"x:");
    emit_hex(bb->p, bs);
    emit("\"");
  }
  if (file) {
    emit(",\"text\":\"x:");
    emit_hex((uint8_t *)text, ntext);
    emit("\"");
    free(text);
  }
  ok &= bufs_clean();
  emit(",\"clean\":%d}\n", ok);
  free(hex);
}

/* ------------------------------------------------------------------ */
/* byte-level commands                                                  */
static const X_ECDH *dhalg(const char *s) {
  if (!strcmp(s, "x25519")) return &X25519;
  if (!strcmp(s, "x25519_x64")) return &X25519_x64;
  return &X448;
}
static int is448(const char *s) { return strstr(s, "448") != NULL; }
static size_t keylen(const char *alg) {
  return !strncmp(alg, "ed448", 5) ? 57 : is448(alg) ? 56 : 32;
}

static void out_buf(const char *name, Buf *b) {
  emit(",\"%s\":\"x:", name);
  emit_hex(b->p, b->n);
  emit("\"");
}
static void in_hex(const char *name, const char *h) {
  emit(",\"%s\":\"x:%s\"", name, h[0] == '-' || h[0] == 'N' ? "" : h);
}

static void do_byte(char **v, int n, long id) {
  const char *pl = v[1], *op = v[2], *st = "ok";
  int rc = -1;
  size_t l[4] = {0};
  (void)n;
  emit("{\"id\":%ld,\"k\":\"B\",\"op\":\"%s\",\"pl\":\"%s\"", id, op, pl);
  static uint8_t under[UNDER];
  after_call = single && (EQ("kgl") || EQ("dhl")) ? under : NULL;
  if (EQ("kg") || EQ("kgl")) { /* kg alg sk alias; kgl: and what it leaves behind */
    const char *alg = v[3];
    size_t kl = keylen(alg);
    uint8_t *sk = unhex(v[4], &l[0]);
    int alias = atoi(v[5]);
    Buf *s = mkbuf(pl, sk, kl, alias);
    Buf *o = alias ? s : mkbuf(pl, NULL, kl, 1);
    SignKeyGen f = NULL;
    if (!strcmp(alg, "ed25519")) f = Ed25519.Pure.keygen;
    else if (!strcmp(alg, "ed25519ctx")) f = Ed25519.Context.keygen;
    else if (!strcmp(alg, "ed25519ph")) f = Ed25519.PreHash.keygen;
    else if (!strcmp(alg, "ed448")) f = Ed448.PureContext.keygen;
    else if (!strcmp(alg, "ed448ph")) f = Ed448.PreHash.keygen;
    if (f) GUARDED(st, rc = f(o->p, s->p));
    else GUARDED(st, rc = dhalg(alg)->keygen(o->p, s->p); LEFT());
    if (after_call && !f) emit(",\"left\":%d", left_of(sk, kl));
    emit(",\"alg\":\"%s\"", alg);
    in_hex("sk", v[4]);
    out_buf("out", o);
    free(sk);
  } else if (EQ("dh") || EQ("dhl")) { /* dh alg peer sk alias */
    const char *alg = v[3];
    size_t kl = keylen(alg);
    uint8_t *pk = unhex(v[4], &l[0]), *sk = unhex(v[5], &l[1]);
    int alias = atoi(v[6]);
    /* 1: over the peer, 2: over the key, 3: peer and key are one buffer (same bytes), 4: all three */
    int one = alias >= 3 && !memcmp(pk, sk, kl);
    Buf *p = mkbuf(pl, pk, kl, alias == 1 || (one && alias == 4)), *s = one ? p : mkbuf(pl, sk, kl, alias == 2);
    Buf *o = alias == 1 || (one && alias == 4) ? p : alias == 2 ? s : mkbuf(pl, NULL, kl, 1);
    GUARDED(st, rc = dhalg(alg)->shared(o->p, p->p, s->p); LEFT());
    if (after_call) emit(",\"left\":%d", left_of(sk, kl));
    emit(",\"alg\":\"%s\"", alg);
    in_hex("peer", v[4]);
    in_hex("sk", v[5]);
    out_buf("out", o);
    free(pk);
    free(sk);
  } else if (EQ("sg") || EQ("vf")) {
    /* sg alg pk sk msg ctx clen ; vf alg pk sig msg ctx clen
       clen overrides the context length passed when it is not "." */
    const char *alg = v[3];
    size_t kl = is448(alg) ? 57 : 32;
    uint8_t *pk = unhex(v[4], &l[0]), *sx = unhex(v[5], &l[1]);
    uint8_t *ms = v[6][0] == 'N' ? NULL : unhex(v[6], &l[2]);
    uint8_t *cx = v[7][0] == 'N' ? NULL : unhex(v[7], &l[3]);
    uint64_t clen = v[8][0] == '.' ? l[3] : strtoull(v[8], NULL, 10);
    int sign = EQ("sg");
    Buf *p = mkbuf(pl, pk, kl, 0), *s = mkbuf(pl, sx, sign ? kl : 2 * kl, 0);
    Buf *m = ms ? mkbuf(pl, ms, l[2], 0) : NULL, *c = cx ? mkbuf(pl, cx, l[3], 0) : NULL;
    Buf *o = sign ? mkbuf(pl, NULL, 2 * kl, 1) : NULL;
    uint8_t *mp = m ? m->p : NULL, *cp = c ? c->p : NULL;
    if (!strcmp(alg, "ed25519")) {
      if (sign) GUARDED(st, rc = Ed25519.Pure.sign(o->p, mp, l[2], p->p, s->p));
      else GUARDED(st, rc = Ed25519.Pure.verify(mp, l[2], p->p, s->p));
    } else {
      SignCtx sf;
      VerifyCtx vf;
      if (!strcmp(alg, "ed25519ctx")) sf = Ed25519.Context.sign, vf = Ed25519.Context.verify;
      else if (!strcmp(alg, "ed25519ph")) sf = Ed25519.PreHash.sign, vf = Ed25519.PreHash.verify;
      else if (!strcmp(alg, "ed448")) sf = Ed448.PureContext.sign, vf = Ed448.PureContext.verify;
      else sf = Ed448.PreHash.sign, vf = Ed448.PreHash.verify;
      if (sign) GUARDED(st, rc = sf(o->p, mp, l[2], cp, clen, p->p, s->p));
      else GUARDED(st, rc = vf(mp, l[2], cp, clen, p->p, s->p));
    }
    emit(",\"alg\":\"%s\"", alg);
    in_hex("pk", v[4]);
    in_hex(sign ? "sk" : "sig", v[5]);
    in_hex("msg", v[6]);
    in_hex("ctx", v[7]);
    emit(",\"clen\":\"w:%llx\"", (unsigned long long)clen);
    if (sign) out_buf("out", o);
    free(pk);
    free(sx);
    free(ms);
    free(cx);
  } else if (EQ("hi")) { /* hi ctx alg : start a hash */
    HCtx *h = &T->ctx[atoi(v[3])];
    int a = h->alg = atoi(v[4]);
    if (a == 512) GUARDED(st, sph_sha512_init(h->sph));
    else if (a == 384) GUARDED(st, sph_sha384_init(h->sph));
    else GUARDED(st, rc = Init(h->k3, a > 3000 ? a - 3000 : a));
    emit(",\"h\":%s,\"alg\":%d", v[3], a);
  } else if (EQ("hu")) { /* hu ctx data */
    HCtx *h = &T->ctx[atoi(v[3])];
    uint8_t *d = unhex(v[4], &l[0]);
    Buf *m = mkbuf(pl, d, l[0], 0);
    if (h->alg == 512) GUARDED(st, sph_sha512(h->sph, m->p, l[0]));
    else if (h->alg == 384) GUARDED(st, sph_sha384(h->sph, m->p, l[0]));
    else GUARDED(st, rc = Update(h->k3, m->p, (DataLength)l[0] * 8));
    emit(",\"h\":%s", v[3]);
    in_hex("data", v[4]);
    free(d);
  } else if (EQ("hf")) { /* hf ctx outlen extrabits(ub n) */
    HCtx *h = &T->ctx[atoi(v[3])];
    size_t ol = strtoul(v[4], NULL, 10);
    Buf *o = mkbuf(pl, NULL, ol, 1);
    if (h->alg == 512) GUARDED(st, sph_sha512_close(h->sph, o->p));
    else if (h->alg == 384) GUARDED(st, sph_sha384_close(h->sph, o->p));
    else if (h->alg > 3000) GUARDED(st, rc = Final(h->k3, o->p));
    else GUARDED(st, rc = Final2(h->k3, o->p, (DataLength)ol));
    emit(",\"h\":%s,\"olen\":%zu", v[3], ol);
    out_buf("out", o);
  } else if (EQ("hb")) { /* hb ctx outlen ub n : the message ends with n bits */
    HCtx *h = &T->ctx[atoi(v[3])];
    size_t ol = strtoul(v[4], NULL, 10);
    unsigned ub = (unsigned)atoi(v[5]), nb = (unsigned)atoi(v[6]);
    Buf *o = mkbuf(pl, NULL, ol, 1);
    if (h->alg == 512) GUARDED(st, sph_sha512_addbits_and_close(h->sph, ub, nb, o->p));
    else GUARDED(st, sph_sha384_addbits_and_close(h->sph, ub, nb, o->p));
    emit(",\"h\":%s,\"ub\":%u,\"n\":%u", v[3], ub, nb);
    out_buf("out", o);
  } else if (EQ("hp")) { /* hp msg val : the compression function on words */
    uint8_t *d = unhex(v[3], &l[0]), *w = unhex(v[4], &l[1]);
    Buf *m = mkbuf("a", d, 128, 0), *o = mkbuf("a", w, 64, 1);
    GUARDED(st, sph_sha512_comp((const sph_u64 *)m->p, (sph_u64 *)o->p));
    in_hex("msg", v[3]);
    in_hex("val", v[4]);
    out_buf("out", o);
    free(d);
    free(w);
  } else if (EQ("hc")) { /* hc to from : clone */
    HCtx *to = &T->ctx[atoi(v[3])], *fr = &T->ctx[atoi(v[4])];
    to->alg = fr->alg;
    memcpy(to->sph, fr->sph, sizeof(sph_sha512_context));
    memcpy(to->k3, fr->k3, sizeof(hashState));
    emit(",\"h\":%s,\"from\":%s", v[3], v[4]);
  } else if (EQ("hs")) { /* hs alg msg outlen [alias] : one-shot, over the message if alias and of its length */
    int a = atoi(v[3]);
    uint8_t *d = unhex(v[4], &l[0]);
    size_t ol = strtoul(v[5], NULL, 10);
    int over = n > 6 && atoi(v[6]) && ol == l[0];
    Buf *m = mkbuf(pl, d, l[0], over), *o = over ? m : mkbuf(pl, NULL, ol, 1);
    if (a == 512 || a == 384) {
      sph_sha512_context *c = T->ctx[NCTX - 1].sph;
      if (a == 512) GUARDED(st, { sph_sha512_init(c); sph_sha512(c, m->p, l[0]); sph_sha512_close(c, o->p); });
      else GUARDED(st, { sph_sha384_init(c); sph_sha384(c, m->p, l[0]); sph_sha384_close(c, o->p); });
    } else if (a == 128) GUARDED(st, rc = SHAKE128(m->p, (DataLength)l[0] * 8, o->p, (DataLength)ol));
    else if (a == 256) GUARDED(st, rc = SHAKE256(m->p, (DataLength)l[0] * 8, o->p, (DataLength)ol));
    else GUARDED(st, rc = Hash(a - 3000, m->p, (DataLength)l[0] * 8, o->p));
    emit(",\"alg\":%d", a);
    in_hex("msg", v[4]);
    emit(",\"olen\":%zu", ol);
    out_buf("out", o);
    free(d);
  } else if (EQ("h2")) { /* h2 variant m0 m1 : two-way SHA-512 */
    uint8_t *a = unhex(v[4], &l[0]), *b = unhex(v[5], &l[1]);
    Buf *ma = mkbuf(pl, a, l[0], 0), *mb = mkbuf(pl, b, l[1], 0);
    Buf *oa = mkbuf(pl, NULL, 64, 1), *ob = mkbuf(pl, NULL, 64, 1);
    uint8_t *mm[2] = {ma->p, mb->p}, *dd[2] = {oa->p, ob->p};
    if (v[3][0] == '0' && sha512_2w_avx) GUARDED(st, sha512_2w_avx(mm, (unsigned)l[0], dd));
    else if (v[3][0] != '0' && sha512_2w_avx_256b && l[0] == 32) GUARDED(st, sha512_2w_avx_256b(mm, dd));
    else st = "absent";
    in_hex("m0", v[4]);
    in_hex("m1", v[5]);
    out_buf("out", oa);
    out_buf("out2", ob);
    free(a);
    free(b);
  } else if (EQ("h2c")) { /* h2c impl msg */
    uint8_t *d = unhex(v[4], &l[0]);
    Buf *m = mkbuf(pl, d, l[0], 0);
    Buf *o = mkbuf("a", NULL, sizeof(Point), 1);
    if (v[3][0] == 'x') GUARDED(st, h2c25519_x64((Point *)o->p, m->p, l[0]));
    else GUARDED(st, h2c25519_avx2((Point *)o->p, m->p, l[0]));
    emit(",\"impl\":\"%s\"", v[3]);
    in_hex("msg", v[4]);
    out_buf("out", o);
    free(d);
  } else if (EQ("onc") || EQ("aeq")) { /* onc xy ; aeq xy xy  (each 64 bytes) */
    uint8_t *a = unhex(v[3], &l[0]), *b = EQ("aeq") ? unhex(v[4], &l[1]) : NULL;
    Buf *p = mkbuf("a", a, 64, 1), *q = b ? mkbuf("a", b, 64, 1) : NULL;
    if (b) GUARDED(st, rc = areEqual((Point *)p->p, (Point *)q->p));
    else GUARDED(st, rc = isOnCurve((Point *)p->p));
    in_hex("p", v[3]);
    if (b) in_hex("q", v[4]);
    out_buf("out", p);
    if (b) out_buf("out2", q);
    free(a);
    free(b);
  } else if (EQ("h2f")) { /* h2f impl msg : hash to field, both elements */
    uint8_t *d = unhex(v[4], &l[0]);
    Buf *m = mkbuf(pl, d, l[0], 0);
    Buf *o = mkbuf("a", NULL, 32, 1), *o2 = mkbuf("a", NULL, 32, 1);
    if (!hash_to_field || !hash_to_field_2w) st = "absent";
    else if (v[3][0] == 'x')
      GUARDED(st, { hash_to_field((uint64_t *)o->p, 0, m->p, l[0]); hash_to_field((uint64_t *)o2->p, 1, m->p, l[0]); });
    else GUARDED(st, hash_to_field_2w((uint64_t *)o->p, (uint64_t *)o2->p, m->p, l[0]));
    emit(",\"impl\":\"%s\"", v[3]);
    in_hex("msg", v[4]);
    out_buf("out", o);
    out_buf("out2", o2);
    free(d);
  } else if (EQ("m2c")) { /* m2c impl u0 u1 : map to curve, projective X Y Z T (canonical bytes) */
    uint8_t *a = unhex(v[4], &l[0]), *b = unhex(v[5], &l[1]);
    Buf *o = mkbuf("a", NULL, 128, 1), *o2 = mkbuf("a", NULL, 128, 1);
    if (v[3][0] == 'x' ? !map_to_curve : !map_to_curve_2w) st = "absent";
    else if (v[3][0] == 'x') {
      Buf *u0 = mkbuf("a", a, 32, 0), *u1 = mkbuf("a", b, 32, 0);
      PointXYZT_1way_full P[2];
      GUARDED(st, { map_to_curve(&P[0], (uint64_t *)u0->p); map_to_curve(&P[1], (uint64_t *)u1->p); });
      for (int i = 0; i < 2; i++) {
        uint8_t *q = (i ? o2 : o)->p;
        Fp25519._1w_full.arith.misc.ser(q, P[i].X);
        Fp25519._1w_full.arith.misc.ser(q + 32, P[i].Y);
        Fp25519._1w_full.arith.misc.ser(q + 64, P[i].Z);
        Fp25519._1w_full.arith.misc.ser(q + 96, P[i].T);
      }
    } else {
      ALIGN uint8_t ub[64], sb[64];
      EltFp25519_2w_redradix u;
      PointXYZT_2way P;
      memcpy(ub, a, 32);
      memcpy(ub + 32, b, 32);
      Fp25519._2w_red.arith.misc.unser(u, ub);
      GUARDED(st, map_to_curve_2w(&P, u));
      __m256i *cs[4] = {P.X, P.Y, P.Z, P.T};
      for (int i = 0; i < 4; i++) {
        Fp25519._2w_red.arithex.compress(cs[i]);
        Fp25519._2w_red.arith.misc.ser(sb, cs[i]);
        memcpy(o->p + 32 * i, sb, 32);
        memcpy(o2->p + 32 * i, sb + 32, 32);
      }
    }
    emit(",\"impl\":\"%s\"", v[3]);
    in_hex("u0", v[4]);
    in_hex("u1", v[5]);
    out_buf("out", o);
    out_buf("out2", o2);
    free(a);
    free(b);
  } else if (EQ("mr")) { /* mr bytes64 : reduction modulo the order of edwards25519 */
    uint8_t *a = unhex(v[3], &l[0]);
    Buf *o = mkbuf("a", a, 64, 1);
    if (!modular_reduction_ed25519) st = "absent";
    else GUARDED(st, modular_reduction_ed25519(o->p));
    in_hex("a", v[3]);
    out_buf("out", o);
    free(a);
  } else {
    st = "badop";
  }
  emit(",\"rc\":%d,\"st\":\"%s\"", rc, st);
  emit(",\"clean\":%d}\n", bufs_clean());
}

#include "randsrc.h"

/* ------------------------------------------------------------------ */
static char **lines;
static long nlines;

/* ------------------------------------------------------------------ */
/* point formulas: P fd op rep nq np hexq hexp, every coordinate given by   */
/* its digits of 8 bytes, lane after lane                                   */
extern int point_op(int fd, const char *op, unsigned char *q, unsigned char *p, unsigned char *o);
#pragma weak point_op
static void pt_load(uint8_t *r, int fd, int rep, int k, const uint8_t *hex, size_t n) {
  size_t per = (size_t)8 * nlanes(rep) * ndigits(fd, rep), q = 0;
  for (int i = 0; i < k; i++)
    for (int l = 0; l < nlanes(rep); l++)
      for (int d = 0; d < ndigits(fd, rep); d++, q += 8)
        if (q + 8 <= n && per <= 512) memcpy(r + 512 * i + 8 * widx(fd, rep, l, d), hex + q, 8);
}
static void pt_emit(const char *name, uint8_t *r, int fd, int rep, int k) {
  emit(",\"%s\":[", name);
  for (int i = 0; i < k; i++) {
    emit("%s[", i ? "," : "");
    for (int l = 0; l < nlanes(rep); l++) {
      emit("%s\"w:", l ? "," : "");
      for (int d = 0; d < ndigits(fd, rep); d++) {
        uint64_t x;
        memcpy(&x, r + 512 * i + 8 * widx(fd, rep, l, d), 8);
        emit("%s%llx", d ? "." : "", (unsigned long long)x);
      }
      emit("\"");
    }
    emit("]");
  }
  emit("]");
}
static void do_point(char **v, int n, long id) {
  static __thread uint8_t q[2048] __attribute__((aligned(64))), p[2048] __attribute__((aligned(64))), o[2048] __attribute__((aligned(64)));
  int fd = atoi(v[1]), rep = parse_rep(v[3]), nq = atoi(v[4]), np = atoi(v[5]), have = 0;
  const char *op = v[2], *st;
  size_t hn = 0, pn = 0;
  uint8_t *hq = unhex(v[6], &hn), *hp = np ? unhex(v[7], &pn) : NULL;
  memset(q, 0, sizeof q), memset(p, 0, sizeof p), memset(o, 0, sizeof o);
  pt_load(q, fd, rep, nq, hq, hn);
  if (np) pt_load(p, fd, rep, np, hp, pn);
  if (!point_op) st = "absent";
  else {
    GUARDED(st, have = point_op(fd, op, q, p, o));
    if (have == 0 && !strcmp(st, "ok")) st = "absent";
  }
  emit("{\"id\":%ld,\"k\":\"P\",\"fd\":%d,\"op\":\"%s\",\"st\":\"%s\",\"clean\":1", id, fd, op, st);
  pt_emit("q", q, fd, rep, nq);
  pt_emit("p", p, fd, rep, np);
  pt_emit("o", o, fd, rep, nq);
  emit("}\n");
  free(hq), free(hp);
}

extern int scalar_op(int fd, const char *op, unsigned char *in, unsigned char *o);
#pragma weak scalar_op
static void do_scalar(char **v, int n, long id) {
  static __thread uint8_t in[512] __attribute__((aligned(64))), o[512] __attribute__((aligned(64)));
  int fd = atoi(v[1]), have = 0;
  const char *op = v[2], *st;
  size_t k = 0;
  uint8_t *h = unhex(v[3], &k);
  memset(in, 0, sizeof in), memset(o, 0, sizeof o);
  memcpy(in, h, k < sizeof in ? k : sizeof in);
  if (!scalar_op) st = "absent";
  else {
    GUARDED(st, have = scalar_op(fd, op, in, o));
    if (have == 0 && !strcmp(st, "ok")) st = "absent";
  }
  emit("{\"id\":%ld,\"k\":\"M\",\"fd\":%d,\"op\":\"%s\",\"st\":\"%s\",\"clean\":1,\"in\":\"x:", id, fd, op, st);
  for (size_t j = 0; j < k; j++) emit("%02x", h[j]);
  emit("\",\"out\":\"x:");
  for (int j = 0; j < have; j++) emit("%02x", o[j]);
  emit("\"}\n");
  free(h);
}

/* ------------------------------------------------------------------ */
/* messages of any length: the bytes of pre, n zero bytes (pages that are   */
/* never written), the bytes of post, against an unmapped page              */
typedef struct { uint8_t *map, *p; size_t len, size; const char *pre, *post; unsigned long long n; } LMsg;
static LMsg lmsg(const char *pre, const char *cnt, const char *post) {
  LMsg m = {.pre = pre, .post = post, .n = strtoull(cnt, NULL, 10)};
  size_t a, b;
  uint8_t *x = unhex(pre, &a), *y = unhex(post, &b);
  m.len = a + m.n + b;
  size_t body = (m.len + PAGE - 1) / PAGE * PAGE;
  m.size = body + PAGE;
  m.map = mmap(NULL, m.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m.map == MAP_FAILED) m.map = NULL;
  else {
    mprotect(m.map + body, PAGE, PROT_NONE);
    m.p = m.map + body - m.len;
    memcpy(m.p, x, a), memcpy(m.p + a + m.n, y, b);
  }
  free(x), free(y);
  return m;
}
static void lmsg_end(const char *name, LMsg *m) {
  emit(",\"%s\":{\"pre\":\"x:%s\",\"n\":%llu,\"post\":\"x:%s\"}", name, m->pre[0] == '-' ? "" : m->pre, m->n, m->post[0] == '-' ? "" : m->post);
  if (m->map) munmap(m->map, m->size);
}
/* is there memory for n bytes, with some to spare? */
static int room(unsigned long long n) {
  char l[200];
  unsigned long long kb = 0, mx = ~0ULL, cur = 0;
  FILE *f = fopen("/proc/meminfo", "r");
  while (f && fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %llu", &kb) == 1) break;
  if (f) fclose(f);
  if ((f = fopen("/sys/fs/cgroup/memory.max", "r"))) { if (fscanf(f, "%llu", &mx) != 1) mx = ~0ULL; fclose(f); }
  if ((f = fopen("/sys/fs/cgroup/memory.current", "r"))) { if (fscanf(f, "%llu", &cur) != 1) cur = 0; fclose(f); }
  n += 2ULL << 30;
  return kb * 1024 > n && (mx == ~0ULL || mx > cur + n);
}
static void do_long(char **v, int n, long id) {
  const char *op = v[1], *st = "absent";
  long rc = 0;
  size_t k;
  T->nbuf = 0;
  guard_secs = 250;
  emit("{\"id\":%ld,\"k\":\"L\",\"op\":\"%s\"", id, op);
  if (!strcmp(op, "hs")) { /* hs alg pre n post chunk olen; chunk 0: one call */
    int a = atoi(v[2]);
    LMsg m = lmsg(v[3], v[4], v[5]);
    size_t ch = strtoull(v[6], NULL, 10), ol = strtoull(v[7], NULL, 10);
    Buf *o = mkbuf("a0", NULL, ol, 1);
    HCtx *h = &T->ctx[NCTX - 1];
    if (m.p == NULL) st = "absent";
    else if (ch == 0 && a == 128) GUARDED(st, SHAKE128(m.p, (DataLength)m.len * 8, o->p, (DataLength)ol));
    else if (ch == 0 && a == 256) GUARDED(st, SHAKE256(m.p, (DataLength)m.len * 8, o->p, (DataLength)ol));
    else if (ch == 0 && a > 3000) GUARDED(st, Hash(a - 3000, m.p, (DataLength)m.len * 8, o->p));
    else GUARDED(st, {
      if (a == 512) sph_sha512_init(h->sph); else if (a == 384) sph_sha384_init(h->sph); else Init(h->k3, a > 3000 ? a - 3000 : a);
      for (size_t at = 0; at < m.len; at += ch) {
        if (ch == 0 || ch > m.len) ch = m.len;
        size_t now = m.len - at < ch ? m.len - at : ch;
        if (a == 512) sph_sha512(h->sph, m.p + at, now); else if (a == 384) sph_sha384(h->sph, m.p + at, now); else Update(h->k3, m.p + at, (DataLength)now * 8);
      }
      if (a == 512) sph_sha512_close(h->sph, o->p); else if (a == 384) sph_sha384_close(h->sph, o->p);
      else if (a > 3000) Final(h->k3, o->p); else Final2(h->k3, o->p, (DataLength)ol);
    });
    emit(",\"alg\":%d,\"olen\":%zu", a, ol);
    lmsg_end("msg", &m);
    out_buf("out", o);
  } else if (!strcmp(op, "h2")) { /* h2 pre0 pre1 n post0 post1 */
    LMsg a = lmsg(v[2], v[4], v[5]), b = lmsg(v[3], v[4], v[6]);
    Buf *oa = mkbuf("a0", NULL, 64, 1), *ob = mkbuf("a0", NULL, 64, 1);
    uint8_t *mm[2] = {a.p, b.p}, *dd[2] = {oa->p, ob->p};
    if (sha512_2w_avx && a.p && b.p) GUARDED(st, sha512_2w_avx(mm, a.len, dd));
    lmsg_end("msg", &a);
    lmsg_end("msg2", &b);
    out_buf("out", oa);
    out_buf("out2", ob);
  } else if (!strcmp(op, "h2f")) { /* h2f impl pre n post */
    LMsg m = lmsg(v[3], v[4], v[5]);
    Buf *o = mkbuf("a", NULL, 32, 1), *o2 = mkbuf("a", NULL, 32, 1);
    if (!hash_to_field || !hash_to_field_2w || !m.p || (v[2][0] != 'x' && !room(2 * m.len))) st = "absent"; /* it copies the message twice */
    else if (v[2][0] == 'x')
      GUARDED(st, { hash_to_field((uint64_t *)o->p, 0, m.p, m.len); hash_to_field((uint64_t *)o2->p, 1, m.p, m.len); });
    else GUARDED(st, hash_to_field_2w((uint64_t *)o->p, (uint64_t *)o2->p, m.p, m.len));
    emit(",\"impl\":\"%s\"", v[2]);
    lmsg_end("msg", &m);
    out_buf("out", o);
    out_buf("out2", o2);
  } else { /* sg alg pk sk pre n post ctx ; vf alg pk sig pre n post ctx */
    const char *alg = v[2];
    int sign = !strcmp(op, "sg");
    size_t kl = keylen(alg), cl;
    LMsg m = lmsg(v[5], v[6], v[7]);
    uint8_t *pk = unhex(v[3], &k), *sx = unhex(v[4], &k), *cx = unhex(v[8], &cl);
    Buf *p = mkbuf("a0", pk, kl, 0), *s = mkbuf("a0", sx, sign ? kl : 2 * kl, 0), *c = mkbuf("a0", cx, cl, 0);
    Buf *o = sign ? mkbuf("a0", NULL, 2 * kl, 1) : NULL;
    SignCtx sf = NULL;
    VerifyCtx vf = NULL;
    if (!strcmp(alg, "ed25519ctx")) sf = Ed25519.Context.sign, vf = Ed25519.Context.verify;
    else if (!strcmp(alg, "ed25519ph")) sf = Ed25519.PreHash.sign, vf = Ed25519.PreHash.verify;
    else if (!strcmp(alg, "ed448")) sf = Ed448.PureContext.sign, vf = Ed448.PureContext.verify;
    else if (!strcmp(alg, "ed448ph")) sf = Ed448.PreHash.sign, vf = Ed448.PreHash.verify;
    if (m.p == NULL) st = "absent";
    else if (sf == NULL) {
      if (sign) GUARDED(st, rc = Ed25519.Pure.sign(o->p, m.p, m.len, p->p, s->p));
      else GUARDED(st, rc = Ed25519.Pure.verify(m.p, m.len, p->p, s->p));
    } else if (sign) GUARDED(st, rc = sf(o->p, m.p, m.len, c->p, cl, p->p, s->p));
    else GUARDED(st, rc = vf(m.p, m.len, c->p, cl, p->p, s->p));
    emit(",\"alg\":\"%s\"", alg);
    in_hex("pk", v[3]);
    in_hex(sign ? "sk" : "sig", v[4]);
    in_hex("ctx", v[8]);
    emit(",\"clen\":\"w:%llx\"", (unsigned long long)cl);
    lmsg_end("msg", &m);
    if (sign) out_buf("out", o);
    free(pk), free(sx), free(cx);
  }
  guard_secs = 20;
  emit(",\"rc\":%ld,\"st\":\"%s\",\"clean\":%d}\n", rc, st, bufs_clean());
}

/* ------------------------------------------------------------------ */
/* objects: sizes, allocation, release, printing                       */
typedef struct { size_t need, key, sig; void *(*alloc)(void); void (*release)(void *); void (*print)(FILE *, uint8_t *); } Obj;
#define OFIELD(N, S, MM, TY) if (!strcmp(w, N)) { o.alloc = (void *(*)(void))MM.alloc; o.release = (void (*)(void *))MM.free; o.need = sizeof(TY); return o; }
#define OKEY(N, TB, NK) if (!strcmp(w, N)) { o.alloc = (void *(*)(void))TB.allocKey; o.release = (void (*)(void *))TB.freeKey; o.print = (void (*)(FILE *, uint8_t *))TB.printKey; o.key = TB.key_size; o.need = NK; return o; }
#define OSIG(N, TB, NS) if (!strcmp(w, N)) { o.alloc = (void *(*)(void))TB.allocSignature; o.release = (void (*)(void *))TB.freeSignature; o.print = (void (*)(FILE *, uint8_t *))TB.printSignature; o.key = TB.key_size; o.sig = TB.signature_size; o.need = NS; return o; }
static Obj object(const char *w) {
  Obj o = {0};
  OKEY("x25519", X25519, 32) OKEY("x25519_x64", X25519_x64, 32) OKEY("x448", X448, 56)
  OKEY("ed25519", Ed25519.Pure, 32) OKEY("ed25519ctx", Ed25519.Context, 32) OKEY("ed25519ph", Ed25519.PreHash, 32)
  OKEY("ed448", Ed448.PureContext, 57) OKEY("ed448ph", Ed448.PreHash, 57)
  OSIG("ed25519.sig", Ed25519.Pure, 64) OSIG("ed25519ctx.sig", Ed25519.Context, 64) OSIG("ed25519ph.sig", Ed25519.PreHash, 64)
  OSIG("ed448.sig", Ed448.PureContext, 114) OSIG("ed448ph.sig", Ed448.PreHash, 114)
  OFIELD("f255.f", 0, Fp25519._1w_full.arith.misc, EltFp25519_1w_fullradix) OFIELD("f255.r", 0, Fp25519._1w_red.arith.misc, EltFp25519_1w_redradix)
  OFIELD("f255.t", 0, Fp25519._2w_red.arith.misc, EltFp25519_2w_redradix) OFIELD("f255.q", 0, Fp25519._4w_red.arith.misc, EltFp25519_4w_redradix)
  OFIELD("f448.f", 0, Fp448._1w_full.arith.misc, EltFp448_1w_fullradix) OFIELD("f448.r", 0, Fp448._1w_red.arith.misc, EltFp448_1w_redradix)
  OFIELD("f448.t", 0, Fp448._2w_red.arith.misc, EltFp448_2w_redradix) OFIELD("f448.q", 0, Fp448._4w_red.arith.misc, EltFp448_4w_redradix)
  return o;
}
static void *held[32];
static size_t heldn[32];
static uint8_t mark(int slot, size_t j) { return (uint8_t)(0x35 + 61 * slot + 7 * j); }
static void emit_addr(const char *name, uintptr_t a) { emit("%s\"w:%llx\"", name, (unsigned long long)a); }
static void emit_blks(const char *name, HpBlk *b, int n) {
  emit(",\"%s\":[", name);
  for (int i = 0; i < n; i++) emit("%s\"w:%llx.%llx\"", i ? "," : "", (unsigned long long)b[i].p, (unsigned long long)b[i].n);
  emit("]");
}
static void do_object(char **v, int n, long id) {
  const char *op = v[1], *st = "absent";
  emit("{\"id\":%ld,\"k\":\"O\",\"op\":\"%s\"", id, op);
  if (n > 2) emit(",\"what\":\"%s\"", v[2]);
  Obj o = n > 2 ? object(v[2]) : (Obj){0};
  if (EQ("size")) { /* size what */
    emit(",\"key\":%zu,\"sig\":%zu", o.key, o.sig);
    st = "ok";
  } else if (EQ("alloc")) { /* alloc what slot refused */
    int s = atoi(v[3]);
    void *p = NULL;
    hp_refuse = atoi(v[4]);
    if (o.alloc) GUARDED(st, p = o.alloc());
    else hp_ngot = hp_ngave = 0;
    hp_refuse = 0;
    emit(",\"slot\":%d,\"need\":%zu,\"refused\":%s", s, o.need, v[4]);
    emit_addr(",\"at\":", (uintptr_t)p);
    emit_blks("got", hp_got, hp_ngot);
    emit_blks("gave", hp_gave, hp_ngave);
    held[s] = p;
    heldn[s] = o.need;
    if (p) for (size_t j = 0; j < o.need; j++) ((uint8_t *)p)[j] = mark(s, j);
  } else if (EQ("free")) { /* free what slot|-1 (null) */
    int s = atoi(v[3]), intact = 1;
    void *p = s < 0 ? NULL : held[s];
    if (p) for (size_t j = 0; j < heldn[s]; j++) intact &= ((uint8_t *)p)[j] == mark(s, j);
    if (o.release) GUARDED(st, o.release(p));
    else hp_ngot = hp_ngave = 0;
    if (s >= 0) held[s] = NULL;
    emit(",\"slot\":%d,\"intact\":%d", s, intact);
    emit_blks("got", hp_got, hp_ngot);
    emit_blks("gave", hp_gave, hp_ngave);
  } else if (EQ("keep")) {
    emit(",\"live\":%d", hp_nblk);
    st = "ok";
  } else if (EQ("print") || EQ("point")) { /* print what hex ; point hexX hexY (what = hexX) */
    char *text = NULL;
    size_t nt = 0, k = 0, k2 = 0;
    FILE *file = open_memstream(&text, &nt);
    uint8_t *x = unhex(v[2], &k), *y = EQ("point") ? unhex(v[3], &k2) : NULL;
    if (y) {
      uint8_t xy[64];
      memcpy(xy, x, 32), memcpy(xy + 32, y, 32);
      Buf *q = mkbuf("a0", xy, 64, 0);
      GUARDED(st, print_point(file, (Point *)q->p));
      in_hex("x", v[2]);
      in_hex("y", v[3]);
      free(y);
      free(x);
    } else {
      free(x);
      x = unhex(v[3], &k);
      Buf *q = mkbuf("m1", x, k, 0);
      if (o.print) GUARDED(st, o.print(file, q->p));
      in_hex("x", v[3]);
      free(x);
    }
    fclose(file);
    emit(",\"text\":\"x:");
    emit_hex((uint8_t *)text, nt);
    emit("\"");
    free(text);
  }
  emit(",\"st\":\"%s\",\"clean\":%d}\n", st, bufs_clean());
}

static void exec_line(long i) {
  char *copy = strdup(lines[i]), *save = NULL, *v[MAXARG];
  int n = 0;
  for (char *t = strtok_r(copy, " \n", &save); t && n < MAXARG; t = strtok_r(NULL, " \n", &save)) v[n++] = t;
  if (n) switch (v[0][0]) {
      case 'R':
        regs_reset();
        for (int k = 0; k < NCTX; k++) T->ctx[k].alg = 0;
        if (single) {
          hp_nblk = 0;
          memset(held, 0, sizeof held);
        }
        emit("{\"id\":%ld,\"k\":\"R\"}\n", i + 1);
        break;
      case 'F': do_field(v, n, i + 1); break;
      case 'B': do_byte(v, n, i + 1); break;
      case 'Q': do_rand(v, n, i + 1); break;
      case 'O': do_object(v, n, i + 1); break;
      case 'P': do_point(v, n, i + 1); break;
      case 'M': do_scalar(v, n, i + 1); break;
      case 'L': do_long(v, n, i + 1); break;
    }
  free(copy);
}

static void ts_init(TS *t) {
  memset(t, 0, sizeof *t);
  for (int i = 0; i < NSLOT; i++) {
    t->slot[i].base = mmap(NULL, SLOT + 2 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(t->slot[i].base + PAGE, SLOT, PROT_READ | PROT_WRITE);
  }
  t->regs = aligned_alloc(64, 2 * NREP * NREG * REGSZ);
  t->snap = aligned_alloc(64, 2 * NREP * NREG * REGSZ);
  for (int k = 0; k < NCTX; k++) {
    t->ctx[k].sph = aligned_alloc(64, (sizeof(sph_sha512_context) + 63) / 64 * 64);
    t->ctx[k].k3 = aligned_alloc(64, (sizeof(hashState) + 63) / 64 * 64);
  }
  t->ocap = 1 << 20;
  t->o = malloc(t->ocap);
}

static int rounds = 1;
typedef struct { TS ts; long first; int idx; pthread_t th; } Worker;
static void *worker(void *p) {
  Worker *w = p;
  T = &w->ts;
  /* every thread runs all the histories, starting at a different one */
  for (int k = 0; k < rounds; k++) {
    for (long i = w->first; i < nlines; i++) exec_line(i);
    for (long i = 0; i < w->first; i++) exec_line(i);
  }
  return NULL;
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  int nt = argc > 3 ? atoi(argv[3]) : 0;
  if (argc > 5) rounds = atoi(argv[5]);
  FILE *f = fopen(argv[1], "r"), *o = fopen(argv[2], "w");
  if (!f || !o) return 2;
  char *line = NULL;
  size_t cap = 0;
  long lcap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (nlines == lcap) lines = realloc(lines, (lcap = lcap * 2 + 1024) * sizeof *lines);
    lines[nlines++] = strdup(line);
  }
  fclose(f);
  stack_t ss = {.ss_sp = malloc(1 << 16), .ss_size = 1 << 16};
  sigaltstack(&ss, NULL);
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGTRAP};
  struct sigaction sa = {.sa_handler = onsig, .sa_flags = SA_NODEFER | (nt ? 0 : SA_ONSTACK)};
  for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
  if (nt == 0) {
    static TS t;
    ts_init(&t);
    T = &t;
    for (long i = 0; i < nlines; i++) {
      exec_line(i);
      if (T->on > (1 << 19)) {
        fwrite(T->o, 1, T->on, o);
        T->on = 0;
      }
    }
    fwrite(T->o, 1, T->on, o);
  } else {
    single = 0;
    Worker *w = calloc(nt, sizeof *w);
    long *heads = malloc((nlines + 1) * sizeof *heads), nh = 0;
    for (long i = 0; i < nlines; i++)
      if (lines[i][0] == 'R') heads[nh++] = i;
    for (int k = 0; k < nt; k++) {
      ts_init(&w[k].ts);
      /* spread over the script, or (near) side by side so that the same
         operations run at the same time */
      w[k].first = nh == 0 ? 0 : argc > 4 && argv[4][0] == 'n' ? heads[k % nh] : heads[(nh * k) / nt];
      w[k].idx = k;
    }
    for (int k = 0; k < nt; k++) pthread_create(&w[k].th, NULL, worker, &w[k]);
    for (int k = 0; k < nt; k++) {
      pthread_join(w[k].th, NULL);
      fwrite(w[k].ts.o, 1, w[k].ts.on, o);
    }
  }
  return fclose(o) ? 2 : 0;
}
