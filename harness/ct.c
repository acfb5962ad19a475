/* Runs secret-key operations between two marker stores, for an address trace.
 *   ct SCRIPT      each line:  alg op secret public message context
 * (hexadecimal, "-" when empty; op: kg dh sg).  All calls use the same
 * buffers, so that two calls of one kind may differ in the secret alone. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "faz_ecdh_avx2.h"
#include "faz_eddsa_avx2.h"

volatile uint8_t mark_begin[64] __attribute__((aligned(64)));
volatile uint8_t mark_end[64] __attribute__((aligned(64)));
static uint8_t sk[64] __attribute__((aligned(64))), pk[64] __attribute__((aligned(64))), out[128] __attribute__((aligned(64)));
static uint8_t msg[4096] __attribute__((aligned(64))), ctx[256] __attribute__((aligned(64)));
static char line[20000];

static size_t unhex(uint8_t *d, const char *s) {
  size_t n = 0;
  unsigned v;
  if (*s == '-') return 0;
  for (; s[0] && s[1]; s += 2, n++) {
    sscanf(s, "%2x", &v);
    d[n] = (uint8_t)v;
  }
  return n;
}
static const X_ECDH *dh(const char *a) { return !strcmp(a, "x25519") ? &X25519 : !strcmp(a, "x25519_x64") ? &X25519_x64 : &X448; }

static __attribute__((noinline)) void call(const char *a, const char *op, size_t ml, size_t cl) {
  if (!strcmp(op, "dh")) { dh(a)->shared(out, pk, sk); return; }
  if (!strcmp(op, "kg")) {
    if (a[0] == 'x') dh(a)->keygen(out, sk);
    else if (!strcmp(a, "ed25519")) Ed25519.Pure.keygen(out, sk);
    else if (!strcmp(a, "ed25519ctx")) Ed25519.Context.keygen(out, sk);
    else if (!strcmp(a, "ed25519ph")) Ed25519.PreHash.keygen(out, sk);
    else if (!strcmp(a, "ed448")) Ed448.PureContext.keygen(out, sk);
    else Ed448.PreHash.keygen(out, sk);
    return;
  }
  if (!strcmp(a, "ed25519")) Ed25519.Pure.sign(out, msg, ml, pk, sk);
  else if (!strcmp(a, "ed25519ctx")) Ed25519.Context.sign(out, msg, ml, ctx, cl, pk, sk);
  else if (!strcmp(a, "ed25519ph")) Ed25519.PreHash.sign(out, msg, ml, ctx, cl, pk, sk);
  else if (!strcmp(a, "ed448")) Ed448.PureContext.sign(out, msg, ml, ctx, cl, pk, sk);
  else Ed448.PreHash.sign(out, msg, ml, ctx, cl, pk, sk);
}

int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  if (argc < 2 || !f) return 2;
  fprintf(stderr, "MARK %lx %lx\n", (unsigned long)(uintptr_t)mark_begin, (unsigned long)(uintptr_t)mark_end);
  while (fgets(line, sizeof line, f)) {
    char *v[7], *s = strtok(line, " \n");
    int n = 0;
    for (; s && n < 7; s = strtok(NULL, " \n")) v[n++] = s;
    if (n < 6) return 2;
    memset(sk, 0, sizeof sk);
    memset(out, 0, sizeof out);
    unhex(sk, v[2]);
    unhex(pk, v[3]);
    size_t ml = unhex(msg, v[4]), cl = unhex(ctx, v[5]);
    /* a line that starts with "warm" is run without being observed */
    int seen = strcmp(v[0], "warm");
    memset(out, 0, sizeof out);
    if (seen) mark_begin[0] = 1;
    call(seen ? v[0] : v[6], v[1], ml, cl);
    if (seen) mark_end[0] = 1;
  }
  return 0;
}
