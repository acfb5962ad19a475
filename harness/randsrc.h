/*
 * Scripted system random source: the link-time wrappers below stand in for the
 * system calls by which a program can read random bytes.  Every call made while
 * a script is active is recorded with its result.
 *
 *   Q what size script
 *     what   : prgn, a key type, or f<fd>.<rep> (element randomizer)
 *     script : letters consumed one per source call
 *              o open ok     O open fails (ENFILE)   P open interrupted (EINTR)
 *              f full read   1..9 short read of that many bytes
 *              i read EINTR  e read EIO              z read end of file
 *              when exhausted: f/o; a trailing '*' repeats the last letter forever
 */
#include <sys/types.h>

#define RS_FD 777
#define RS_CAP 2000
static __thread int rs_on, rs_ncalls, rs_open;
static __thread const char *rs_script;
static __thread uint64_t rs_pos;
static __thread uint8_t *rs_dl;
static __thread size_t rs_ndl;
static __thread const char *rs_end;
static __thread char *rs_log;
static __thread size_t rs_loglen;
#define RS_MAXDL (1u << 20)

static uint8_t rs_byte(uint64_t i) {
  uint64_t z = (i + 1) * 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return (uint8_t)((z ^ (z >> 31)) >> 24);
}
static void rs_leave(const char *why) {
  rs_end = why;
  rs_on = 0;
  T->armed = 0;
  siglongjmp(T->jb, 2);
}
static void rs_rec(const char *c, long want, long got) {
  if (rs_loglen < 60000)
    rs_loglen += sprintf(rs_log + rs_loglen, "%s{\"c\":\"%s\",\"want\":%ld,\"got\":%ld}", rs_loglen ? "," : "", c, want, got);
  if (++rs_ncalls > RS_CAP) rs_leave("loops");
}
/* next letter of the script applicable to an open (1) or a read (0) */
static int rs_next(int isopen) {
  const char *opens = "oOP";
  for (;;) {
    char ch = *rs_script;
    if (!ch) return isopen ? 'o' : 'f';
    if (ch == '*') { /* repeat the previous letter */
      char prev = rs_script[-1];
      if ((strchr(opens, prev) != NULL) == isopen) return prev;
      return isopen ? 'o' : 'f';
    }
    if ((strchr(opens, ch) != NULL) == isopen) {
      if (rs_script[1] != '*') rs_script++;
      else { rs_script++; return ch; }
      return ch;
    }
    if (isopen) return 'o'; /* a read outcome is next: the open succeeds */
    if (rs_script[1] == '*') return 'f';
    rs_script++;            /* a pending open outcome that was not asked for */
  }
}
static long rs_read(void *buf, size_t n) {
  int ch = rs_next(0);
  size_t k = n;
  if (ch == 'i') { errno = EINTR; return -1; }
  if (ch == 'e') { errno = EIO; return -1; }
  if (ch == 'z') return 0;
  if (ch >= '1' && ch <= '9' && (size_t)(ch - '0') < n) k = ch - '0';
  if (rs_ndl + k > RS_MAXDL) rs_leave("loops");
  for (size_t j = 0; j < k; j++) rs_dl[rs_ndl++] = ((uint8_t *)buf)[j] = rs_byte(rs_pos++);
  return (long)k;
}
static int rs_opencall(void) {
  int ch = rs_next(1), fd = -1;
  if (ch == 'o') { fd = RS_FD; rs_open++; }
  else errno = ch == 'P' ? EINTR : ENFILE;
  rs_rec("open", 0, fd == -1 ? -1 : 0);
  return fd;
}
#define RS_ARGS_OPEN va_list ap; int mode; va_start(ap, fl); mode = va_arg(ap, int); va_end(ap)
int __real_open(const char *p, int fl, ...);
int __wrap_open(const char *p, int fl, ...) { RS_ARGS_OPEN; if (!rs_on) return __real_open(p, fl, mode); return rs_opencall(); }
int __real_open64(const char *p, int fl, ...);
int __wrap_open64(const char *p, int fl, ...) { RS_ARGS_OPEN; if (!rs_on) return __real_open64(p, fl, mode); return rs_opencall(); }
int __real_openat(int d, const char *p, int fl, ...);
int __wrap_openat(int d, const char *p, int fl, ...) { RS_ARGS_OPEN; if (!rs_on) return __real_openat(d, p, fl, mode); return rs_opencall(); }
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!rs_on) return __real_read(fd, b, n);
  long k;
  if (fd != RS_FD || rs_open <= 0) { errno = EBADF; k = -1; }
  else k = rs_read(b, n);
  int e = errno;
  rs_rec("read", (long)n, k);
  errno = e;
  return k;
}
ssize_t __real___read_chk(int fd, void *b, size_t n, size_t bl);
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t bl) { (void)bl; return __wrap_read(fd, b, n); }
int __real_close(int fd);
int __wrap_close(int fd) {
  if (!rs_on) return __real_close(fd);
  if (fd == RS_FD && rs_open > 0) rs_open--;
  rs_rec("close", 0, 0);
  return 0;
}
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  if (!rs_on) return __real_fopen(p, m);
  return rs_opencall() == -1 ? NULL : (FILE *)(uintptr_t)RS_FD;
}
FILE *__real_fopen64(const char *p, const char *m);
FILE *__wrap_fopen64(const char *p, const char *m) { return rs_on ? __wrap_fopen(p, m) : __real_fopen64(p, m); }
size_t __real_fread(void *b, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) {
  if (!rs_on) return __real_fread(b, s, n, f);
  long k = rs_read(b, s * n);
  rs_rec("read", (long)(s * n), k);
  return k < 0 ? 0 : s ? (size_t)k / s : 0;
}
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) {
  if (!rs_on) return __real_fclose(f);
  if (rs_open > 0) rs_open--;
  return 0;
}
int __real_feof(FILE *f);
int __wrap_feof(FILE *f) { return rs_on ? 0 : __real_feof(f); }
int __real_ferror(FILE *f);
int __wrap_ferror(FILE *f) { return rs_on ? 0 : __real_ferror(f); }
int __real_setvbuf(FILE *f, char *b, int m, size_t n);
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { return rs_on ? 0 : __real_setvbuf(f, b, m, n); }
ssize_t __real_getrandom(void *b, size_t n, unsigned fl);
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) {
  if (!rs_on) return __real_getrandom(b, n, fl);
  long k = rs_read(b, n);
  int e = errno;
  rs_rec("read", (long)n, k);
  errno = e;
  return k;
}
int __real_getentropy(void *b, size_t n);
int __wrap_getentropy(void *b, size_t n) {
  if (!rs_on) return __real_getentropy(b, n);
  int ch = rs_next(0);
  long k = -1;
  if (n > 256 || ch == 'i' || ch == 'e' || ch == 'z') errno = EIO;
  else { static const char full[] = ""; const char *s = rs_script; rs_script = full; k = rs_read(b, n); rs_script = s; }
  rs_rec("read", (long)n, k);
  return k < 0 ? -1 : 0;
}
void __real_abort(void);
void __wrap_abort(void) { if (rs_on) rs_leave("stops"); __real_abort(); }
void __real_exit(int c);
void __wrap_exit(int c) { if (rs_on) rs_leave("stops"); __real_exit(c); }
void __real__exit(int c);
void __wrap__exit(int c) { if (rs_on) rs_leave("stops"); __real__exit(c); }
void __real__Exit(int c);
void __wrap__Exit(int c) { if (rs_on) rs_leave("stops"); __real__Exit(c); }
void __real_quick_exit(int c);
void __wrap_quick_exit(int c) { if (rs_on) rs_leave("stops"); __real_quick_exit(c); }
int __real_raise(int s);
int __wrap_raise(int s) { if (rs_on && s == SIGABRT) rs_leave("stops"); return __real_raise(s); }
/* messages are allowed; they are not printed while a script is active */
int __real_puts(const char *s);
int __wrap_puts(const char *s) { return rs_on ? 0 : __real_puts(s); }
int __real_printf(const char *f, ...);
int __wrap_printf(const char *f, ...) {
  if (rs_on) return 0;
  va_list ap;
  va_start(ap, f);
  int k = vprintf(f, ap);
  va_end(ap);
  return k;
}
void __real_perror(const char *s);
void __wrap_perror(const char *s) { if (!rs_on) __real_perror(s); }
/* retry loops may wait */
unsigned __real_sleep(unsigned s);
unsigned __wrap_sleep(unsigned s) { return rs_on ? 0 : __real_sleep(s); }
int __real_usleep(unsigned s);
int __wrap_usleep(unsigned s) { return rs_on ? 0 : __real_usleep(s); }
int __real_nanosleep(const struct timespec *a, struct timespec *b);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { return rs_on ? 0 : __real_nanosleep(a, b); }

static void do_rand(char **v, int n, long id) {
  const char *what = v[1], *st = "ok";
  size_t size = strtoul(v[2], NULL, 10);
  (void)n;
  if (!rs_dl) {
    rs_dl = malloc(RS_MAXDL);
    rs_log = malloc(1 << 16);
  }
  rs_script = n > 3 && strcmp(v[3], "-") ? v[3] : "";
  rs_ncalls = 0; /* a descriptor kept open from an earlier request stays usable */
  rs_ndl = rs_loglen = 0;
  rs_end = NULL;
  rs_log[0] = 0;
  int isf = what[0] == 'f', fd = 0, rep = 0;
  Buf *o = NULL;
  void (*rk)(uint8_t *) = NULL;
  if (isf) {
    fd = atoi(what + 1);
    rep = parse_rep(what + 5);
  } else {
    if (strcmp(what, "prgn")) size = keylen(what);
    char pl[8] = {"amse"[id & 3], '0' + (id & 7), 0};
    o = mkbuf(pl, NULL, size, 1);
    if (!strcmp(what, "x25519")) rk = X25519.randKey;
    else if (!strcmp(what, "x25519_x64")) rk = X25519_x64.randKey;
    else if (!strcmp(what, "x448")) rk = X448.randKey;
    else if (!strcmp(what, "ed25519")) rk = Ed25519.Pure.randKey;
    else if (!strcmp(what, "ed25519ctx")) rk = Ed25519.Context.randKey;
    else if (!strcmp(what, "ed25519ph")) rk = Ed25519.PreHash.randKey;
    else if (!strcmp(what, "ed448")) rk = Ed448.PureContext.randKey;
    else if (!strcmp(what, "ed448ph")) rk = Ed448.PreHash.randKey;
  }
  const PrimeField *P = fd == 255 ? &Fp25519 : &Fp448;
  size_t tot = 2 * NREP * NREG * REGSZ;
  memcpy(T->snap, T->regs, tot);
  rs_on = 1;
  GUARDED(st, {
    if (!isf) {
      if (rk) rk(o->p);
      else prgn_random_bytes(o->p, size);
    } else if (rep == RF) P->_1w_full.arith.misc.rand(reg(fd, rep, 0));
    else if (rep == RR) P->_1w_red.arith.misc.rand(reg(fd, rep, 0));
    else if (rep == RT) P->_2w_red.arith.misc.rand(reg(fd, rep, 0));
    else P->_4w_red.arith.misc.rand(reg(fd, rep, 0));
  });
  rs_on = 0;
  if (rs_end) st = rs_end;
  if (!strcmp(st, "abort")) st = "stops";
  int ok = 1;
  for (int f = 0; f < 2; f++)
    for (int r = 0; r < NREP; r++)
      for (int k = 0; k < NREG; k++) {
        int F = f ? 448 : 255;
        uint8_t *now = rbase(F, r, k), *old = T->snap + (now - T->regs);
        if (isf && F == fd && r == rep && k == 0) {
          size_t e = 64 + rsize(F, r);
          ok &= memcmp(now, old, 64) == 0 && memcmp(now + e, old + e, REGSZ - e) == 0;
        } else ok &= memcmp(now, old, REGSZ) == 0;
      }
  emit("{\"id\":%ld,\"k\":\"Q\",\"what\":\"%s\",\"script\":\"%s\",\"size\":%zu,\"st\":\"%s\",\"calls\":[", id, what, n > 3 ? v[3] : "-", size, st);
  if (rs_loglen) emit("%s", rs_log);
  emit("]");
  if (isf) {
    emit(",\"fd\":%d,\"out\":\"x:\"", fd);
    emit_reg("oc", fd, rep, 0);
  } else out_buf("out", o);
  emit(",\"dl\":\"x:");
  emit_hex(rs_dl, rs_ndl > 16384 ? 16384 : rs_ndl);
  emit("\",\"ndl\":%zu", rs_ndl);
  ok &= bufs_clean();
  emit(",\"clean\":%d}\n", ok);
}
