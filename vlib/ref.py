"""Reference arithmetic used only to construct interesting inputs (keys,
signatures, crafted near misses).  It never decides a verdict: the expected
results come from the TLA+ specification."""
import hashlib

P25519 = 2**255 - 19
P448 = 2**448 - 2**224 - 1
L25519 = 2**252 + 27742317777372353535851937790883648493
L448 = 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d


class Ed:
    def __init__(s, name):
        s.name = name
        if name == "ed25519":
            s.p, s.a, s.L, s.n, s.cof = P25519, -1, L25519, 32, 8
            s.d = (-121665 * pow(121666, -1, s.p)) % s.p
        else:
            s.p, s.a, s.L, s.n, s.cof = P448, 1, L448, 57, 4
            s.d = -39081 % s.p
        if name == "ed25519":
            y = 4 * pow(5, -1, s.p) % s.p
            s.B = s.dec(y.to_bytes(32, "little"))
        else:
            s.B = (0x4f1970c66bed0ded221d15a622bf36da9e146570470f1767ea6de324a3d3a46412ae1af72ab66511433b80e18b00938e2626a82bc70cc05e,
                   0x693f46716eb6bc248876203756c9c7624bea73736ca3984087789c1e05a0c2d73ad3ff1ce67c39c4fdbd132c4ed7c8ad9808795bf230fa14)

    def sqrt(s, a):
        p = s.p
        a %= p
        if p % 4 == 3:
            r = pow(a, (p + 1) // 4, p)
        else:
            r = pow(a, (p + 3) // 8, p)
            if r * r % p != a:
                r = r * pow(2, (p - 1) // 4, p) % p
        return r if r * r % p == a else None

    def add(s, P, Q):
        p = s.p
        t = s.d * P[0] * Q[0] * P[1] * Q[1] % p
        return ((P[0] * Q[1] + P[1] * Q[0]) * pow(1 + t, -1, p) % p,
                (P[1] * Q[1] - s.a * P[0] * Q[0]) * pow(1 - t, -1, p) % p)

    def neg(s, P):
        return (-P[0] % s.p, P[1])

    def mul(s, k, P):
        # projective double and add
        p = s.p
        R = (0, 1, 1)
        Q = (P[0], P[1], 1)
        for i in reversed(range(k.bit_length())):
            R = s._add(R, R)
            if k >> i & 1:
                R = s._add(R, Q)
        z = pow(R[2], -1, p)
        return (R[0] * z % p, R[1] * z % p)

    def _add(s, P, Q):
        p = s.p
        A = P[2] * Q[2] % p
        B = A * A % p
        C = P[0] * Q[0] % p
        D = P[1] * Q[1] % p
        E = s.d * C * D % p
        F = (B - E) % p
        G = (B + E) % p
        return (A * F * ((P[0] + P[1]) * (Q[0] + Q[1]) - C - D) % p, A * G * (D - s.a * C) % p, F * G % p)

    def enc(s, P):
        return (P[1] | (P[0] & 1) << (8 * s.n - 1)).to_bytes(s.n, "little")

    def dec(s, b):
        v = int.from_bytes(b, "little")
        sg = v >> (8 * s.n - 1)
        y = v & ((1 << (8 * s.n - 1)) - 1)
        if y >= s.p:
            return None
        den = (s.d * y * y - s.a) % s.p
        xx = (y * y - 1) * pow(den, -1, s.p) % s.p
        x = s.sqrt(xx)
        if x is None or (x == 0 and sg):
            return None
        if x & 1 != sg:
            x = s.p - x
        return (x, y)

    def hash(s, m):
        return hashlib.sha512(m).digest() if s.n == 32 else hashlib.shake_256(m).digest(114)

    def dom(s, variant, ctx):
        if s.n == 32:
            if variant == "ed25519":
                return b""
            return b"SigEd25519 no Ed25519 collisions" + bytes([variant == "ed25519ph", len(ctx)]) + ctx
        return b"SigEd448" + bytes([variant == "ed448ph", len(ctx)]) + ctx

    def pre(s, variant, m):
        if variant == "ed25519ph":
            return hashlib.sha512(m).digest()
        if variant == "ed448ph":
            return hashlib.shake_256(m).digest(64)
        return m

    def secret(s, sk):
        h = s.hash(sk)
        b = bytearray(h[:s.n])
        if s.n == 32:
            b[0] &= 248
            b[31] &= 127
            b[31] |= 64
        else:
            b[0] &= 252
            b[55] |= 128
            b[56] = 0
        return int.from_bytes(b, "little"), h[s.n:]

    def pub(s, sk):
        return s.enc(s.mul(s.secret(sk)[0], s.B))

    def k(s, variant, ctx, R, A, m):
        return int.from_bytes(s.hash(s.dom(variant, ctx) + R + A + s.pre(variant, m)), "little") % s.L

    def sign(s, variant, sk, m, ctx=b""):
        a, pre = s.secret(sk)
        A = s.enc(s.mul(a, s.B))
        r = int.from_bytes(s.hash(s.dom(variant, ctx) + pre + s.pre(variant, m)), "little") % s.L
        R = s.enc(s.mul(r, s.B))
        S = (r + s.k(variant, ctx, R, A, m) * a) % s.L
        return A, R + S.to_bytes(s.n, "little")

    def sign_long(s, variant, sk, r, x, n, y, ctx=b""):
        """a valid signature (of any nonce r) of x, n zero bytes, y"""
        def feed(o):
            o.update(x)
            z, k = bytes(1 << 20), n
            while k >= len(z):
                o.update(z)
                k -= len(z)
            o.update(z[:k])
            o.update(y)
            return o
        new = hashlib.sha512 if s.n == 32 else hashlib.shake_256
        end = (lambda o, l: o.digest()) if s.n == 32 else (lambda o, l: o.digest(l))
        a, _ = s.secret(sk)
        A, R = s.enc(s.mul(a, s.B)), s.enc(s.mul(r, s.B))
        head = s.dom(variant, ctx) + R + A
        if variant.endswith("ph"):
            k = s.hash(head + end(feed(new()), 64))
        else:
            k = end(feed(new(head)), 114)
        S = (r + int.from_bytes(k, "little") * a) % s.L
        return R + S.to_bytes(s.n, "little")

    def torsion(s):
        """the points of order dividing the cofactor"""
        import itertools
        y = 2
        while True:
            T = s.dec(y.to_bytes(s.n, "little"))
            if T:
                T = s.mul(s.L, T)
                pts, Q = [], (0, 1)
                for _ in range(s.cof):
                    pts.append(Q)
                    Q = s.add(Q, T)
                if len(set(pts)) == s.cof:
                    return pts
            y += 1


E25519 = Ed("ed25519")
E448 = Ed("ed448")


def x25519(k, u):
    return xladder(k, u, P25519, 121665, 255, lambda v: (v & ((1 << 254) - 8)) | 1 << 254, 32)


def x448(k, u):
    return xladder(k, u, P448, 39081, 448, lambda v: (v & ((1 << 447) - 4)) | 1 << 447, 56)


def xladder(k, u, p, a24, bits, clamp, n):
    k = clamp(int.from_bytes(k, "little"))
    x1 = int.from_bytes(u, "little")
    if n == 32:
        x1 &= (1 << 255) - 1
    x1 %= p
    x2, z2, x3, z3 = 1, 0, x1, 1
    for t in reversed(range(bits)):
        b = k >> t & 1
        if b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        A, B, C, D = x2 + z2, x2 - z2, x3 + z3, x3 - z3
        DA, CB = D * A % p, C * B % p
        x3, z3 = (DA + CB) ** 2 % p, x1 * (DA - CB) ** 2 % p
        AA, BB = A * A % p, B * B % p
        E = AA - BB
        x2, z2 = AA * BB % p, E * (AA + a24 * E) % p
        if b:
            x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * pow(z2, p - 2, p) % p).to_bytes(n, "little")
