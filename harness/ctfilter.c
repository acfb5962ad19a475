/* Reads lackey's memory trace and writes one JSON line per marked segment:
 * the observations (instruction addresses, data addresses, sizes) are folded
 * into one digest per CH observations.   ctfilter OUT [SEG CHUNK]
 * With SEG and CHUNK the observations of that chunk are printed in full. */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define CH 2048
int main(int argc, char **argv) {
  static char l[512];
  char b[64] = "", e[64] = "";
  FILE *o = fopen(argv[1], "w");
  long seg = 0, n = 0, ws = argc > 3 ? atol(argv[2]) : -1, wc = argc > 3 ? atol(argv[3]) : -1;
  int in = 0;
  uint64_t h = 0;
  if (!o) return 2;
  while (fgets(l, sizeof l, stdin)) {
    if (!b[0]) {
      unsigned long x, y;
      char *m = strstr(l, "MARK ");
      if (m && sscanf(m, "MARK %lx %lx", &x, &y) == 2) {
        snprintf(b, sizeof b, " S %08lx,1", x);
        snprintf(e, sizeof e, " S %08lx,1", y);
      }
      continue;
    }
    if (!(l[0] == 'I' || (l[0] == ' ' && (l[1] == 'L' || l[1] == 'S' || l[1] == 'M')))) continue;
    if (!in) {
      if (!strncmp(l, b, strlen(b))) {
        in = 1;
        n = 0;
        h = 1469598103934665603ull;
        if (ws < 0) fprintf(o, "{\"seg\":%ld,\"d\":[", seg);
      }
      continue;
    }
    int end = !strncmp(l, e, strlen(e));
    if (!end) {
      if (ws == seg && n / CH == wc) fputs(l, o);
      for (char *p = l; *p && *p != '\n'; p++) h = (h ^ (uint8_t)*p) * 1099511628211ull;
      n++;
    }
    if (ws < 0 && (end || n % CH == 0)) fprintf(o, "%s\"%016" PRIx64 "\"", n <= CH && !(end && n == CH) ? "" : ",", h);
    if (end) {
      if (ws < 0) fprintf(o, "],\"n\":%ld}\n", n);
      in = 0;
      seg++;
    }
  }
  return fclose(o) ? 2 : 0;
}
