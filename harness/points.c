/* The point formulas of the library, one by one.  This file is compiled in
 * place of src/target.c, with -include src/target.c.  The formulas are not part of an
 * interface: an operation whose functions or types have other names is left
 * out (-DNO_<name>), the checks at the interface do not depend on it.
 *
 * rep q and t: vectors of 10 (16) or 5 (8); f: four words. */
#include <string.h>

/* regs: the coordinates one after the other, each at a multiple of 512 bytes */
#define AT(p, k) ((p) + 512 * (k))
#define IN(f, p, k) memcpy(f, AT(p, k), sizeof(f))
#define OUT(f, p, k) memcpy(AT(p, k), f, sizeof(f))
#define OP(nm) if (!strcmp(op, nm))

/* number of coordinates of Q, of P, and of the result; 0: no such operation */
int point_op(int fd, const char *op, unsigned char *q, unsigned char *p, unsigned char *o) {
  if (fd == 255) {
#ifndef NO_255mix4way
    OP("mix4way") {
      PointXYZT_4way Q;
      Point_precmp_4way P;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      IN(P.subYX, p, 0); IN(P.addYX, p, 1); IN(P._2dYX, p, 2);
      _4way_mixadd_25519(&Q, &P);
      OUT(Q.X, o, 0); OUT(Q.Y, o, 1); OUT(Q.T, o, 2); OUT(Q.Z, o, 3);
      return 1;
    }
#endif
#ifndef NO_255mix4w
    OP("mix4w") {
      PointXYTZ_4w_H0H5 Q;
      PointXYTZ_precompute_4w_H0H5 P;
      IN(Q.XYTZ, q, 0); IN(P.subYX_addYX_2dT_2Z, p, 0);
      _1way_mixadd_4w_H0H5(&Q, &P);
      OUT(Q.XYTZ, o, 0);
      return 1;
    }
#endif
#ifndef NO_255dbl4w
    OP("dbl4w") {
      PointXYTZ_4w_H0H5 Q;
      IN(Q.XYTZ, q, 0);
      _1way_doubling_4w_H0H5(&Q);
      OUT(Q.XYTZ, o, 0);
      return 1;
    }
#endif
#ifndef NO_255add2w
    OP("add2w") {
      PointXYZT_2w_H0H5 Q, P;
      IN(Q.XY, q, 0); IN(Q.TZ, q, 1); IN(P.XY, p, 0); IN(P.TZ, p, 1);
      _1way_fulladd_2w_H0H5(&Q, &P);
      OUT(Q.XY, o, 0); OUT(Q.TZ, o, 1);
      return 1;
    }
#endif
#ifndef NO_255dbl2w
    OP("dbl2w") {
      PointXYZT_2w_H0H5 Q;
      IN(Q.XY, q, 0); IN(Q.TZ, q, 1);
      _1way_doubling_2w_H0H5(&Q);
      OUT(Q.XY, o, 0); OUT(Q.TZ, o, 1);
      return 1;
    }
#endif
#ifndef NO_255add2way
    OP("add2way") {
      PointXYZT_2way Q, P;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      IN(P.X, p, 0); IN(P.Y, p, 1); IN(P.T, p, 2); IN(P.Z, p, 3);
      _2way_fulladd(&Q, &P);
      OUT(Q.X, o, 0); OUT(Q.Y, o, 1); OUT(Q.T, o, 2); OUT(Q.Z, o, 3);
      return 1;
    }
#endif
#ifndef NO_255dbl2way
    OP("dbl2way") {
      PointXYZT_2way Q;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      _2way_doubling(&Q, 1);
      OUT(Q.X, o, 0); OUT(Q.Y, o, 1); OUT(Q.T, o, 2); OUT(Q.Z, o, 3);
      return 1;
    }
#endif
#ifndef NO_255add1w
    OP("add1w") {
      PointXYZT_1way_full Q, P, R;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      IN(P.X, p, 0); IN(P.Y, p, 1); IN(P.T, p, 2); IN(P.Z, p, 3);
      _1way_fulladd_1w_full(&R, &Q, &P);
      OUT(R.X, o, 0); OUT(R.Y, o, 1); OUT(R.T, o, 2); OUT(R.Z, o, 3);
      return 1;
    }
#endif
#ifndef NO_255dbl1w
    OP("dbl1w") {
      PointXYZT_1way_full Q;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      _1way_doubling_1w_full(&Q);
      OUT(Q.X, o, 0); OUT(Q.Y, o, 1); OUT(Q.T, o, 2); OUT(Q.Z, o, 3);
      return 1;
    }
#endif
  } else {
#ifndef NO_448mix4way
    OP("mix4way") {
      PointXYZT_4way_Fp448 Q;
      Point_precmp_4way_Fp448 P;
      IN(Q.X, q, 0); IN(Q.Y, q, 1); IN(Q.T, q, 2); IN(Q.Z, q, 3);
      IN(P.subYX, p, 0); IN(P.addYX, p, 1); IN(P._2dYX, p, 2);
      _4way_mixadd_ed448(&Q, &P);
      OUT(Q.X, o, 0); OUT(Q.Y, o, 1); OUT(Q.T, o, 2); OUT(Q.Z, o, 3);
      return 1;
    }
#endif
#ifndef NO_448mix4w
    OP("mix4w") {
      PointXYTZ_4w_H0H8 Q;
      PointXYTZ_precompute_4w_H0H8 P;
      IN(Q.XYTZ, q, 0); IN(P.subYX_addYX_2dT_2Z, p, 0);
      _1way_mixadd_4w_H0H8(&Q, &P);
      OUT(Q.XYTZ, o, 0);
      return 1;
    }
#endif
#ifndef NO_448dbl4w
    OP("dbl4w") {
      PointXYTZ_4w_H0H8 Q;
      IN(Q.XYTZ, q, 0);
      _1way_doubling_4w_H0H8(&Q);
      OUT(Q.XYTZ, o, 0);
      return 1;
    }
#endif
#ifndef NO_448add2w
    OP("add2w") {
      PointXYZT_2w_H0H8 Q, P;
      IN(Q.XY, q, 0); IN(Q.TZ, q, 1); IN(P.XY, p, 0); IN(P.TZ, p, 1);
      _1way_fulladd_2w_H0H8(&Q, &P);
      OUT(Q.XY, o, 0); OUT(Q.TZ, o, 1);
      return 1;
    }
#endif
#ifndef NO_448dbl2w
    OP("dbl2w") {
      PointXYZT_2w_H0H8 Q;
      IN(Q.XY, q, 0); IN(Q.TZ, q, 1);
      _1way_doubling_2w_H0H8(&Q);
      OUT(Q.XY, o, 0); OUT(Q.TZ, o, 1);
      return 1;
    }
#endif
#ifndef NO_448iso2w
    OP("iso2w") {
      PointXYZT_2w_H0H8 Q;
      IN(Q.XY, q, 0); IN(Q.TZ, q, 1);
      isogeny_2w_H0H8(&Q);
      OUT(Q.XY, o, 0); OUT(Q.TZ, o, 1);
      return 1;
    }
#endif
  }
  return 0;
}

/* the arithmetic modulo the group order; returns the length of the result */
int scalar_op(int fd, const char *op, unsigned char *in, unsigned char *o) {
  if (fd == 255) {
#ifndef NO_255red64
    OP("red64") {
      uint64_t a[5];
      memcpy(a, in, 40);
      reduce64bits(a);
      memcpy(o, a, 32);
      return 32;
    }
#endif
#ifndef NO_255calcs
    OP("calcs") {
      ALIGN uint64_t s[4], r[4], k[4], a[4];
      memcpy(r, in, 32), memcpy(k, in + 32, 32), memcpy(a, in + 64, 32);
      calculate_s_ed25519((uint8_t *)s, (uint8_t *)r, (uint8_t *)k, (uint8_t *)a);
      memcpy(o, s, 32);
      return 32;
    }
#endif
  } else {
#ifndef NO_448modl
    OP("modl") {
      ALIGN uint64_t a[16];
      memcpy(a, in, 114);
      modular_reduction_ed448((uint8_t *)a);
      memcpy(o, a, 57);
      return 57;
    }
#endif
#ifndef NO_448div4
    OP("div4") {
      ALIGN uint64_t a[8], b[8];
      memcpy(a, in, 57);
      div4((uint8_t *)b, (uint8_t *)a);
      memcpy(o, b, 57);
      return 57;
    }
#endif
#ifndef NO_448calcs
    OP("calcs") {
      ALIGN uint64_t s[8], r[8], h[8], a[8];
      memcpy(r, in, 56), memcpy(h, in + 56, 56), memcpy(a, in + 112, 56);
      calculate_s_ed448((uint8_t *)s, (uint8_t *)r, (uint8_t *)h, (uint8_t *)a);
      memcpy(o, s, 57);
      return 57;
    }
#endif
  }
  return 0;
}
