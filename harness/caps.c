/*
 * Driver for the report on the processor (third_party/cpu_caps.c), which is
 * compiled with its identification instruction calling vf_cpuid below: a
 * processor of the script's choice answers.
 *
 *   driver SCRIPT OUT
 *   Lines:  R
 *           K max ecx1 edx1 ebx7 rest
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cpu_caps.h>

static uint32_t max, c1, d1, b7, rest;
static uint32_t calls;
uint32_t vf_out[4];

__attribute__((target("general-regs-only"), used)) void vf_answer(uint32_t leaf, uint32_t sub) {
  calls++;
  vf_out[0] = vf_out[1] = vf_out[2] = vf_out[3] = rest;
  if (leaf >= 0x80000000u) {
    if (leaf == 0x80000000u) vf_out[0] = leaf;
  } else if (leaf == 0) {
    vf_out[0] = max;
    vf_out[1] = 0x756e6547; vf_out[3] = 0x49656e69; vf_out[2] = 0x6c65746e;
  } else if (leaf > max) {
    ; /* the data of the highest leaf */
  } else if (leaf == 1) {
    vf_out[0] = 0x306c3; vf_out[1] = 0; vf_out[2] = c1; vf_out[3] = d1;
  } else if (leaf == 7) {
    if (sub) vf_out[0] = vf_out[1] = vf_out[2] = vf_out[3] = 0;
    else { vf_out[0] = 0; vf_out[1] = b7; }
  }
}
__asm__(".text\n.globl vf_cpuid\nvf_cpuid:\n"
        "pushfq\npushq %rsi\npushq %rdi\npushq %r8\npushq %r9\npushq %r10\npushq %r11\npushq %rbp\n"
        "movl %eax,%edi\nmovl %ecx,%esi\nmovq %rsp,%rbp\nandq $-16,%rsp\ncld\ncall vf_answer\nmovq %rbp,%rsp\n"
        "movl vf_out(%rip),%eax\nmovl 4+vf_out(%rip),%ebx\nmovl 8+vf_out(%rip),%ecx\nmovl 12+vf_out(%rip),%edx\n"
        "popq %rbp\npopq %r11\npopq %r10\npopq %r9\npopq %r8\npopq %rdi\npopq %rsi\npopfq\nret\n");

static void real(void) {
  uint32_t a, b, c, d;
  __asm__ volatile("cpuid" : "=a"(a), "=b"(b), "=c"(c), "=d"(d) : "a"(0), "c"(0));
  max = a;
  __asm__ volatile("cpuid" : "=a"(a), "=b"(b), "=c"(c), "=d"(d) : "a"(1), "c"(0));
  c1 = c; d1 = d; rest = b7 = 0;
  if (max >= 7) {
    __asm__ volatile("cpuid" : "=a"(a), "=b"(b), "=c"(c), "=d"(d) : "a"(7), "c"(0));
    b7 = b;
  }
}

static const char *name[] = {"CMOV", "SSE", "SSE2", "SSE3", "SSSE3", "SSE4_1", "SSE4_2", "AVX", "AVX2", "BMI", "BMI2", "ADX"};
enum { N = sizeof name / sizeof *name };

/* 0 No, 1 Yes, 2 not said, 3 said twice */
static void said(int *v, int x) { *v = *v == 2 ? x : 3; }
static void parse(char *t, int *yes, int *verdict) {
  for (int k = 0; k < N; k++) yes[k] = 2;
  *verdict = 2;
  for (char *l = strtok(t, "\n"); l; l = strtok(NULL, "\n")) {
    int at = -1, val = -1, sup = 0;
    for (char *p = l; *p;) {
      char w[64];
      size_t n = 0;
      if (!isalnum((unsigned char)*p)) { p++; continue; }
      while (isalnum((unsigned char)*p) || *p == '_' || *p == '.') {
        if (n < 63) w[n++] = *p == '.' ? '_' : *p;
        p++;
      }
      w[n] = 0;
      char *q = strncasecmp(w, "bit_", 4) ? w : w + 4;
      for (int k = 0; k < N; k++)
        if (!strcasecmp(q, name[k])) at = k;
      if (!strcasecmp(w, "yes")) val = 1;
      if (!strcasecmp(w, "no")) val = 0;
      if (!strncasecmp(w, "support", 7)) sup = 1;
    }
    if (val < 0) continue;
    if (sup) said(verdict, val);
    else if (at >= 0) said(&yes[at], val);
  }
}

int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r"), *out = fopen(argv[2], "w");
  char line[256], *text = malloc(1 << 16);
  int mem = memfd_create("report", 0), back = dup(1);
  if (!in || !out || mem < 0) return 3;
  for (long id = 1; fgets(line, sizeof line, in); id++) {
    if (line[0] == 'R') {
      fprintf(out, "{\"id\":%ld,\"k\":\"R\"}\n", id);
      continue;
    }
    if (sscanf(line, "K %u %u %u %u %u", &max, &c1, &d1, &b7, &rest) != 5) return 4;
    fflush(stdout);
    if (ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET)) return 5;
    dup2(mem, 1);
    calls = 0;
    machine_info();
    fflush(stdout);
    dup2(back, 1);
    ssize_t n = pread(mem, text, (1 << 16) - 1, 0);
    if (n < 0) return 6;
    text[n] = 0;
    if (!calls) real(); /* it does not ask itself: this is the processor it can have asked */
    int yes[N], verdict;
    parse(text, yes, &verdict);
    fprintf(out, "{\"id\":%ld,\"k\":\"K\",\"st\":\"ok\",\"clean\":1,\"asked\":%u,\"cpu\":{\"max\":%u,\"c1\":%u,\"d1\":%u,\"b7\":%u,\"rest\":%u},\"yes\":[", id, calls, max, c1, d1, b7, rest);
    for (int k = 0; k < N; k++) fprintf(out, "%s%d", k ? "," : "", yes[k]);
    fprintf(out, "],\"verdict\":%d}\n", verdict);
    fflush(out);
  }
  return 0;
}
