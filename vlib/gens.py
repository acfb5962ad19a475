"""Scripts of byte-level calls.  The generators only choose inputs; every
verdict comes from the TLA+ specification."""
from .ref import E25519, E448, P25519, P448, L25519, L448, x25519, x448
from .fieldgen import sqrtm, near
from . import pointgen as pg

PL = "amse"


def h(b):
    return b.hex() if len(b) else "-"


def place(r):
    return r.choice(PL) + r.choice("01234567")


def le(v, n):
    return (v % (1 << (8 * n))).to_bytes(n, "little")


# ------------------------------------------------------------------ scalars
def scalars(r, n, L, cof_bits, num):
    """n-byte private keys: boundary patterns, one digit set, runs, multiples
    of the group order plus a little, then random ones"""
    bits = 8 * n
    out = [bytes(n), b"\xff" * n, b"\x55" * n, b"\xaa" * n, b"\x0f" * n, b"\xf0" * n, b"\x88" * n, b"\x77" * n, b"\x80" * n, b"\x7f" * n, b"\x01" * n]
    out += [le(1 << k, n) for k in (0, 1, 2, 3, 4, 7, 8, 63, 64, 127, 128, 191, 192, bits - 3, bits - 2, bits - 1)]
    step = 1 << cof_bits
    top = 1 << (255 if n == 32 else 448)
    lo = top >> 1
    for j in range(lo // L, top // L + 1):
        for e in range(-4 * step, 4 * step + 1):
            k = j * L + e
            if lo <= k < top and k % step == 0:
                out.append(le(k, n))
    out = out[:27] + r.sample(out[27:], min(32, len(out) - 27)) if len(out) > 27 else out
    for _ in range(num):
        c = r.randrange(8)
        if c == 0:
            a, b = sorted([r.randrange(bits), r.randrange(bits + 1)])
            v = (1 << b) - (1 << a)
            if r.random() < .5:
                v = ~v
        elif c == 1:
            w = r.choice([2, 3, 4, 5, 6, 7, 8])
            v = sum(r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, r.randrange(1 << w)]) << i for i in range(0, bits, w))
        elif c == 2:
            v = sum(1 << r.randrange(bits) for _ in range(r.randrange(1, 5)))
        else:
            v = r.getrandbits(bits)
        out.append(le(v, n))
    return out


def comb_scalars(r, n, reps, w=4):
    """every digit value in every window position"""
    bits = 8 * n
    out = []
    for k in range(reps):
        perm = [list(range(1 << w)) for _ in range(bits // w)]
        for p in perm:
            r.shuffle(p)
        for d in range(1 << w):
            out.append(le(sum(p[d] << (w * i) for i, p in enumerate(perm)), n))
    return out


# -------------------------------------------------------------------- ECDH
LOW25519 = [0, 1, P25519 - 1, P25519, P25519 + 1, 2 * P25519 - 1, 2 * P25519, 2 * P25519 + 1,
            325606250916557431795983626356110631294008115727848805560023387167927233504,
            39382357235489614581723060781553021112529911719440698176882885853963445705823]


def peers25519(r, num):
    p = P25519
    v = list(LOW25519) + [x | 1 << 255 for x in LOW25519 if x < 1 << 255] + [x + p for x in LOW25519 if x + p < 1 << 255]
    v += list(range(2, 20)) + [p - k for k in range(2, 20)] + [p + k for k in range(2, 19)] + [(1 << 255) - 1, (1 << 256) - 1, (1 << 255) + 9, p + 9]
    v += [1 << k for k in (63, 64, 127, 128, 191, 192, 254, 255)] + [(1 << k) - 1 for k in (64, 128, 192, 254)]
    out = [le(x, 32) for x in v]
    for _ in range(num):
        out.append(le(crafted_u(r, 255) if r.random() < .5 else r.getrandbits(256), 32))
    return out


def peers448(r, num):
    p = P448
    v = [0, 1, 2, 3, 4, 5, 6, p - 1, p - 2, p - 3, p, p + 1, p + 2, p + 5, (1 << 448) - 1, (1 << 448) - 2, (1 << 448) - (1 << 224), (1 << 224) - 1, 1 << 224, (1 << 224) + 1, 1 << 447, p + (1 << 224) - 1, p + (1 << 224)]
    v += [1 << k for k in range(63, 448, 64)] + [(1 << k) - 1 for k in range(64, 448, 64)]
    out = [le(x, 56) for x in v]
    for _ in range(num):
        out.append(le(crafted_u(r, 448) if r.random() < .5 else r.getrandbits(448), 56))
    return out


def crafted_u(r, fd):
    """peer values that put the first ladder step next to a folding boundary"""
    p = P25519 if fd == 255 else P448
    a24 = 121666 if fd == 255 else 39082
    while True:
        t = near(r, fd) % p
        c = r.randrange(6)
        if c < 2:
            s = sqrtm(t, p)
            if s is None:
                continue
            u = (r.choice([s, p - s]) + (1 if c else -1)) % p
        elif c == 2:   # u^2 close to a boundary
            s = sqrtm(t, p)
            if s is None:
                continue
            u = s
        elif c == 3:   # 4u times the small constant
            u = t * pow(4 * a24, -1, p) % p
        elif c == 4:
            u = t
        else:
            u = t * pow(4, -1, p) % p
        if fd == 255 and r.random() < .5 and u < 19:
            u += p
        if fd == 255 and r.random() < .4:
            u |= 1 << 255
        return u


def dh_shared(r, alg, num):
    n = 56 if alg == "x448" else 32
    ps = peers448(r, num) if n == 56 else peers25519(r, num)
    ks = scalars(r, n, L448 if n == 56 else L25519, 2 if n == 56 else 3, max(0, len(ps) - 40))
    r.shuffle(ks)
    out = []
    for i, u in enumerate(ps):
        out += ["R", "B %s dh %s %s %s %d" % (place(r), alg, h(u), h(ks[i % len(ks)]), r.choice([0, 0, 0, 1, 2]))]
    # the clamped bits of the key and the ignored bit of the peer
    for i in range(6):
        k, u = bytearray(r.randbytes(n)), bytearray(r.randbytes(n))
        for bit in ((0, 1, 2, 254, 255) if n == 32 else (0, 1, 447)):
            k2 = bytearray(k)
            k2[bit // 8] ^= 1 << (bit % 8)
            out += ["R", "B a dh %s %s %s 0" % (alg, h(u), h(k2))]
        u[-1] ^= 128
        out += ["R", "B a dh %s %s %s 0" % (alg, h(u), h(k))]
    return out


def aliased(r, reps):
    """every way in which an output may be one of the inputs, for every operation that takes bytes"""
    out = []
    for alg in ("x25519", "x25519_x64", "x448"):
        n = 56 if alg == "x448" else 32
        for _ in range(reps):
            sk, u = r.randbytes(n), r.randbytes(n)
            same = r.choice([sk, u])
            for p in ("a0", place(r)):
                out += ["R", "B %s kg %s %s 1" % (p, alg, h(sk))]
                out += [l for al in (1, 2) for l in ("R", "B %s dh %s %s %s %d" % (p, alg, h(u), h(sk), al))]
                out += [l for al in (1, 2, 3, 4) for l in ("R", "B %s dh %s %s %s %d" % (p, alg, h(same), h(same), al))]
    for alg in V25519 + V448:
        for _ in range(reps):
            out += ["R", "B %s kg %s %s 1" % (place(r), alg, h(r.randbytes(57 if alg in V448 else 32)))]
    fixed = {512: 64, 384: 48, 3224: 28, 3256: 32, 3384: 48, 3512: 64}
    for a in (512, 384, 3224, 3256, 3384, 3512, 128, 256):
        for n in [fixed[a]] * reps if a in fixed else [1, 32, 136, 168, 169, 400][:2 + reps]:
            out += ["R", "B %s hs %d %s %d 1" % (place(r), a, h(r.randbytes(n)), n)]
    return out


def dh_keygen(r, alg, num):
    n = 56 if alg == "x448" else 32
    ks = scalars(r, n, L448 if n == 56 else L25519, 2 if n == 56 else 3, num) + comb_scalars(r, n, 1) + comb_scalars(r, n, 1, 8)[:40]
    out = []
    for k in ks:
        out += ["R", "B %s kg %s %s %d" % (place(r), alg, h(k), r.choice([0, 0, 1]))]
    return out


def dh_agree(r, alg, num, alg2=None):
    """two parties exchange public keys (histories with both roles)"""
    n = 56 if alg == "x448" else 32
    f = x448 if n == 56 else x25519
    base = le(5 if n == 56 else 9, n)
    out = []
    for _ in range(num):
        a, b = r.randbytes(n), r.randbytes(n)
        b2 = alg2 or alg
        pa, pb = f(a, base), f(b, base)
        out += ["R", "B a kg %s %s 0" % (alg, h(a)), "B a kg %s %s 0" % (b2, h(b)),
                "B a dh %s %s %s 0" % (alg, h(pb), h(a)), "B a dh %s %s %s 0" % (b2, h(pa), h(b)),
                "B a dh %s %s %s 0" % (alg, h(base), h(a))]
    return out


# ------------------------------------------------------------------- EdDSA
V25519 = ["ed25519", "ed25519ctx", "ed25519ph"]
V448 = ["ed448", "ed448ph"]


def ed(alg):
    return E448 if "448" in alg else E25519


def lengths(r, block, num, top=420):
    """message lengths around the block and padding boundaries"""
    out = [0, 1, 2, 3, 7, 8, 31, 32, 33, 63, 64, 65]
    for k in range(1, 4):
        out += [k * block + d for d in (-72, -66, -65, -64, -33, -32, -18, -17, -16, -9, -8, -2, -1, 0, 1)]
    out = [x for x in out if 0 <= x <= top]
    r.shuffle(out)
    while len(out) < num:
        out.append(r.randrange(top))
    return out[:num]


def context(r, alg):
    if alg == "ed25519":
        return b""
    n = r.choice([0, 1, 2, 8, 32, 63, 64, 127, 128, 129, 135, 136, 254, 255, r.randrange(256)])
    return r.randbytes(n) if r.random() < .8 else bytes([r.choice([0, 255])]) * n


def secret(r, alg):
    n = ed(alg).n
    c = r.randrange(12)
    return bytes(n) if c == 0 else b"\xff" * n if c == 1 else r.randbytes(n)


def sg(pl, alg, pk, sk, m, ctx, clen="."):
    return "B %s sg %s %s %s %s %s %s" % (pl, alg, h(pk), h(sk), h(m), h(ctx), clen)


def vf(pl, alg, pk, sig, m, ctx, clen="."):
    return "B %s vf %s %s %s %s %s %s" % (pl, alg, h(pk), h(sig), h(m), h(ctx), clen)


def ed_sign(r, alg, num):
    """key generation, signing and the matching verification"""
    e = ed(alg)
    block = 136 if e.n == 57 else 128
    out = []
    for n in lengths(r, block, num):
        sk, m, ctx = secret(r, alg), r.randbytes(n), context(r, alg)
        if r.random() < .1:
            m = bytes(n)
        pk, s = e.sign(alg, sk, m, ctx)
        pl = place(r)
        out += ["R", "B %s kg %s %s %d" % (pl, alg, h(sk), r.choice([0, 0, 0, 1])), sg(pl, alg, pk, sk, m, ctx), vf(pl, alg, pk, s, m, ctx)]
        if r.random() < .1:   # twice in a row: deterministic
            out += [sg(place(r), alg, pk, sk, m, ctx)]
    return out


def ed_keygen(r, alg, num):
    out = []
    for _ in range(num):
        out += ["R", "B %s kg %s %s %d" % (place(r), alg, h(secret(r, alg)), r.choice([0, 0, 1]))]
    return out


def ed_sign_only(r, alg, num):
    """many nonces: the message is short, so that tables are covered"""
    e = ed(alg)
    out = []
    for _ in range(num):
        out += ["R", sg(place(r), alg, r.randbytes(e.n), r.randbytes(e.n), r.randbytes(r.randrange(8)), context(r, alg) if r.random() < .3 else b"")]
    return out


def ed_sign_long(r, alg, sizes):
    e = ed(alg)
    out = []
    for n in sizes:
        sk, m, ctx = r.randbytes(e.n), r.randbytes(n), context(r, alg)
        pk, s = e.sign(alg, sk, m, ctx)
        out += ["R", sg("a", alg, pk, sk, m, ctx), vf("m3", alg, pk, s, m, ctx)]
    return out


CARRY448 = 0x13273161fb34aa86624f6f0c61b73798c7044b519c4c8c9fa94306e2c889ec11213f48e373f173cdf788e0896f4929bc3fa5a5fea530e883


def chosen_S(r, e, num):
    """response scalars below the order that a forged-key signature may use:
    recoding extremes, powers, runs of ones, digits, boundaries"""
    L = e.L
    out = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, L - 1, L - 2, L - 3, L // 2, L // 2 + 1, L // 3]
    if e.n == 57:
        out.append(CARRY448)
    nb = L.bit_length()
    out += [1 << r.randrange(nb - 1) for _ in range(6)] + [(1 << k) - 1 for k in (64, 128, 192, nb - 2, nb - 1)] + [1 << nb - 2, (1 << (nb - 1)) - (1 << 64)]
    while len(out) < num:
        c = r.randrange(6)
        if c == 0:
            a, b = sorted([r.randrange(nb), r.randrange(nb)])
            v = (1 << b) - (1 << a)
        elif c == 1:
            w = r.choice([4, 5, 6, 7, 8])
            v = sum(r.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1, (1 << (w - 1)) + 1, r.randrange(1 << w)]) << i for i in range(0, nb, w))
        elif c == 2:
            v = sum(r.choice([1, -1]) << r.randrange(nb) for _ in range(r.randrange(1, 6)))
        elif c == 3:   # a word of ones or zeros in a window multiple of the scalar
            k = r.randrange(nb // 64 + 1)
            v = r.getrandbits(nb) | (((1 << 64) - 1) << (64 * k))
        elif c == 4:
            k = r.randrange(nb // 64 + 1)
            v = r.getrandbits(nb) & ~(((1 << 64) - 1) << (64 * k))
        else:
            v = r.getrandbits(nb)
        out.append(v % L)
    return [v % L for v in out[:num]]


def carry_S(r, e, num):
    """scalars whose multiple by an inverse of a small power of two modulo the
    order has whole words of ones (carry chains of the wide multiplication)"""
    out = []
    for _ in range(num):
        q = pow(r.choice([4, 4, 4, 2, 8, 16]), -1, e.L)
        # q*S = t with a word of ones at position k: choose t, then S is the nearest
        k = r.randrange(1, e.n // 8 * 2 - 1)
        S = r.randrange(e.L)
        t = q * S
        t2 = t | (((1 << 64) - 1) << (64 * k))
        S = (t2 // q) % e.L
        out.append(S)
    return out


def ed_verify_chosen(r, alg, num):
    """keys of small order let every response scalar appear in a valid signature"""
    e = ed(alg)
    tors = e.torsion()
    out = []
    for S in chosen_S(r, e, num):
        A = r.choice(tors) if r.random() < .5 else (0, 1)
        pk = e.enc(A)
        m, ctx = r.randbytes(r.randrange(40)), context(r, alg)
        R = e.mul(S, e.B)
        for _ in range(16):
            Rb = e.enc(R)
            k = e.k(alg, ctx, Rb, pk, m)
            if e.add(R, e.mul(k, A)) == e.mul(S, e.B):
                break
            m = r.randbytes(r.randrange(40))
        out += ["R", vf(place(r), alg, pk, e.enc(R) + le(S, e.n), m, ctx)]
        if r.random() < .2:
            out += [vf(place(r), alg, pk, e.enc(R) + le(S + 1, e.n), m, ctx), vf(place(r), alg, pk, e.enc(e.neg(R)) + le(S, e.n), m, ctx)]
    return out


def ed_verify_random(r, alg, num):
    """honest keys and arbitrary nonces: valid signatures and one-bit neighbours"""
    e = ed(alg)
    out = []
    for i in range(num):
        sk = r.randbytes(e.n)
        m, ctx = r.randbytes(r.randrange(1, 150)), context(r, alg)
        pk, s = e.sign(alg, sk, m, ctx)
        out += ["R", vf(place(r), alg, pk, s, m, ctx)]
        for _ in range(3):
            c = r.randrange(6)
            pk2, s2, m2, ctx2 = bytearray(pk), bytearray(s), bytearray(m), bytearray(ctx)
            if c == 0:
                b = r.randrange(8 * e.n)
                s2[b // 8] ^= 1 << (b % 8)
            elif c == 1:
                b = 8 * e.n + r.randrange(8 * e.n)
                s2[b // 8] ^= 1 << (b % 8)
            elif c == 2:
                b = r.randrange(8 * len(m2))
                m2[b // 8] ^= 1 << (b % 8)
            elif c == 3:
                b = r.randrange(8 * e.n)
                pk2[b // 8] ^= 1 << (b % 8)
            elif c == 4 and ctx2:
                b = r.randrange(8 * len(ctx2))
                ctx2[b // 8] ^= 1 << (b % 8)
            elif c == 4:
                m2 = m2 + b"\0"
            else:
                m2 = m2[:-1]
            out += [vf(place(r), alg, bytes(pk2), bytes(s2), bytes(m2), bytes(ctx2))]
    return out


def bit_sweep(r, alg, step):
    """every step-th bit of one signature and key flipped in turn"""
    e = ed(alg)
    sk, m, ctx = r.randbytes(e.n), r.randbytes(33), context(r, alg)
    pk, s = e.sign(alg, sk, m, ctx)
    out = ["R", vf("a", alg, pk, s, m, ctx)]
    o = r.randrange(step)
    bits = sorted(set(list(range(o, 16 * e.n, step)) + [0, 1, 7, 8 * e.n - 1, 8 * e.n - 2, 8 * e.n, 16 * e.n - 1, 16 * e.n - 2, 16 * e.n - 3, 16 * e.n - 8, 16 * e.n - 9]))
    for b in bits:
        s2 = bytearray(s)
        s2[b // 8] ^= 1 << (b % 8)
        out += ["R", vf("a", alg, pk, bytes(s2), m, ctx)]
    for b in sorted(set(list(range(o, 8 * e.n, step)) + [0, 8 * e.n - 1, 8 * e.n - 2, 8 * e.n - 8, 8 * e.n - 9])):
        p2 = bytearray(pk)
        p2[b // 8] ^= 1 << (b % 8)
        out += ["R", vf("a", alg, bytes(p2), s, m, ctx)]
    return out


def known_448(alg, pk, sig, m, ctx):
    """the class of the known finding: valid Ed448 signatures whose nonce point
    lies outside the prime-order subgroup (only the listed one is replayed)"""
    e = ed(alg)
    if e.n != 57:
        return False
    A, R, S = e.dec(pk), e.dec(sig[:57]), int.from_bytes(sig[57:], "little")
    if A is None or R is None or S >= e.L or e.mul(e.L, R) == (0, 1):
        return False
    return e.add(R, e.mul(e.k(alg, ctx, sig[:57], pk, m), A)) == e.mul(S, e.B)


def ed_verify_malformed(r, alg, num):
    """responses outside the range, encodings that are not canonical or name no
    point, keys and nonces of small order, neighbours in the cofactor"""
    e = ed(alg)
    n, L, p = e.n, e.L, e.p
    out = []
    tors = e.torsion()
    signbit = 1 << (8 * n - 1)

    def add(*a):
        if not known_448(*a):
            out.extend(["R", vf(place(r), *a)])
    for i in range(num):
        sk, m, ctx = r.randbytes(n), r.randbytes(r.randrange(60)), context(r, alg)
        pk, s = e.sign(alg, sk, m, ctx)
        R, S = s[:n], int.from_bytes(s[n:], "little")
        # the same response plus multiples of the order
        ks = [1, 2, 3, 4, 7, 8, 15]
        mx = ((1 << (8 * n)) - 1 - S) // L
        ks += [mx, mx - 1, r.randrange(1, mx + 1)]
        for k in r.sample(ks, 3):
            if S + k * L < 1 << (8 * n):
                add(alg, pk, R + le(S + k * L, n), m, ctx)
        for b in (1 << 8 * n - 1, 1 << 8 * n - 2, 1 << 8 * n - 3, 1 << 8 * n - 8 if n == 57 else 1 << 252):
            add(alg, pk, R + le(S ^ b, n), m, ctx)
    # response exactly at the boundary, with the identity as the key
    idk = e.enc((0, 1))
    for S in [0, 1, L - 1, L, L + 1, 2 * L, L + 2**64, (1 << 8 * n) - 1, (1 << (L.bit_length())) - 1, 1 << L.bit_length(), (1 << (L.bit_length() - 1)), L ^ 1, L - (1 << 64), L + (1 << 128), L - (1 << 128), L + (1 << 192), L - (1 << 192), L - (1 << 200), L + (1 << 200)]:
        if 0 <= S < 1 << 8 * n:
            R = e.enc(e.mul(S % L, e.B))
            add(alg, idk, R + le(S, n), b"m", b"")
    # non-canonical and undecodable keys; the equation holds when the wrong
    # decoding is taken for the identity or its sign is ignored
    bad = [p, p + 1, p - 1, p + 2, p + 3, p + 18 if n == 32 else p + 5, 0, 1, 2, 3, 4, 5, 6, 7, (1 << (255 if n == 32 else 448)) - 1, p + 9, p + 10, p + 13, p + 14]
    if n == 57:
        bad += [p + (1 << 224), (1 << 448) + 1, 1 << 448, (1 << 448) + p + 1, ((1 << 7) - 1) << 448 | 1, (1 << 454) + 1, 1 + (1 << 449), 1 + (1 << 450)]
    for y in bad:
        for sgn in (0, 1):
            pk = le(y | sgn * signbit, n)
            for S in (0, 5, r.randrange(L)):
                for Rp in ((0, 1), tors[r.randrange(len(tors))]):
                    R = e.enc(e.add(e.mul(S, e.B), Rp)) if S else e.enc(Rp)
                    if r.random() < .5:
                        add(alg, pk, R + le(S, n), r.randbytes(4), b"")
            # the same string as the nonce
            add(alg, idk, pk + le(0, n), r.randbytes(3), b"")
    for y in [r.getrandbits(8 * n) for _ in range(num)]:
        S = r.randrange(L)
        pk = le(y & ~(0x7f << 448) if n == 57 else y, n)
        add(alg, pk, e.enc(e.mul(S, e.B)) + le(S, n), b"", b"")
    # honest equation with an undecodable neighbour: x = 0 with the sign bit
    for y in (1, p - 1):
        add(alg, le(y | signbit, n), e.enc(e.mul(7, e.B)) + le(7, n), b"abc", b"")
    # mixed-order keys and nonces
    for i in range(num):
        a = r.randrange(1, L)
        T, U = r.choice(tors), r.choice(tors)
        A = e.add(e.mul(a, e.B), T)
        nonce = r.randrange(1, L)
        Rp = e.add(e.mul(nonce, e.B), U)
        pk, Rb = e.enc(A), e.enc(Rp)
        m, ctx = r.randbytes(r.randrange(20)), b""
        k = e.k(alg, ctx, Rb, pk, m)
        add(alg, pk, Rb + le((nonce + k * a) % L, n), m, ctx)
    # the signature of the negated key or nonce
    for i in range(6):
        a, nonce, m = r.randrange(1, L), r.randrange(1, L), r.randbytes(5)
        A, Rp = e.mul(a, e.B), e.mul(nonce, e.B)
        for (pa, pr) in ((e.neg(A), Rp), (A, e.neg(Rp)), (e.neg(A), e.neg(Rp))):
            pk, Rb = e.enc(pa), e.enc(pr)
            k = e.k(alg, b"", Rb, pk, m)
            add(alg, pk, Rb + le((nonce + k * a) % L, n), m, b"")
            add(alg, pk, Rb + le((nonce - k * a) % L, n), m, b"")
            add(alg, pk, Rb + le((-nonce - k * a) % L, n), m, b"")
    # nonce equal to the identity, nonce and response zero
    for i in range(4):
        a, m = r.randrange(1, L), r.randbytes(5)
        A = e.mul(a, e.B)
        pk, Rb = e.enc(A), idk
        k = e.k(alg, b"", Rb, pk, m)
        add(alg, pk, Rb + le(k * a % L, n), m, b"")
        # y of the nonce in non-canonical form where there is one
        Rb2 = le(1 + p, n)
        k = e.k(alg, b"", Rb2, pk, m)
        add(alg, pk, Rb2 + le(k * a % L, n), m, b"")
        for t in tors:
            Rt = e.enc(t)
            k = e.k(alg, b"", Rt, pk, m)
            add(alg, pk, Rt + le(k * a % L, n), m, b"")
            # the other sign of a nonce with x = 0
            if t[0] == 0:
                Rt = bytearray(Rt)
                Rt[-1] ^= 128
                k = e.k(alg, b"", bytes(Rt), pk, m)
                add(alg, pk, bytes(Rt) + le(k * a % L, n), m, b"")
    return out


def domains(r, num):
    """every variant verifies every other variant's signatures; contexts of
    every length, and one byte more; altered, truncated and moved contexts"""
    out = []
    for i in range(num):
        for fam in (V25519, V448):
            e = ed(fam[0])
            sk, m = r.randbytes(e.n), r.randbytes(r.choice([0, 5, 32, 64, 100]))
            for a in fam:
                ctx = context(r, a)
                pk, s = e.sign(a, sk, m, ctx)
                out += ["R"]
                for b in fam:
                    out += [vf(place(r), b, pk, s, m, ctx), vf(place(r), b, pk, s, m, b"")]
                    # the prehash passed as the message and the reverse
                    out += [vf(place(r), b, pk, s, e.pre(fam[-1], m), ctx)]
                if ctx:
                    c2 = bytearray(ctx)
                    c2[r.randrange(len(c2))] ^= 1 << r.randrange(8)
                    c3 = bytearray(ctx)
                    c3[-1] ^= 1
                    out += [vf("a", a, pk, s, m, bytes(c2)), vf("a", a, pk, s, m, bytes(c3)), vf("a", a, pk, s, m, ctx[:-1]), vf("a", a, pk, s, m, ctx[1:])]
                    if len(ctx) < 255:
                        out += [vf("a", a, pk, s, m, ctx + b"\0"), vf("a", a, pk, s, m, ctx + m[:1])]
                    # a byte moved between the context and the message
                    if a != "ed25519":
                        out += [vf("a", a, pk, s, ctx[-1:] + m, ctx[:-1])]
    return out


def contexts(r, every):
    """all context lengths at the limits, long contexts refused"""
    out = []
    for a in V25519[1:] + V448:
        e = ed(a)
        o = r.randrange(every)
        for n in sorted(set(list(range(o, 256, every)) + [0, 1, 2, 127, 128, 253, 254, 255])):
            sk, m, ctx = r.randbytes(e.n), r.randbytes(r.randrange(40)), r.randbytes(n)
            pk, s = e.sign(a, sk, m, ctx)
            pl = place(r)
            out += ["R", sg(pl, a, pk, sk, m, ctx), vf(pl, a, pk, s, m, ctx)]
        for n in (256, 257, 300, 511, 512, 513, 1024, 65536 // 64):
            sk, m, ctx = r.randbytes(e.n), r.randbytes(r.randrange(40)), r.randbytes(n)
            pk, s = e.sign(a, sk, m, ctx[:n % 256])
            out += ["R", sg(place(r), a, pk, sk, m, ctx), vf(place(r), a, pk, s, m, ctx)]
        # length given as more than fits in 8, 16 and 32 bits (contents never used)
        for n in (256, 65536, 65536 + 3, 1 << 32, (1 << 32) + 5, 1 << 63, (1 << 64) - 1, (1 << 64) - 256, 1 << 40):
            sk, m, ctx = r.randbytes(e.n), b"x", r.randbytes(255)
            pk, s = e.sign(a, sk, m, ctx[:n % 256 if n % 256 < 256 else 0])
            out += ["R", sg("a", a, pk, sk, m, ctx, str(n)), vf("a", a, pk, s, m, ctx, str(n))]
        # no context at all: null pointer with length zero
        if a != "ed25519":
            sk = r.randbytes(e.n)
            pk, s = e.sign(a, sk, b"q", b"")
            out += ["R", "B a sg %s %s %s 71 N 0" % (a, h(pk), h(sk)), "B a vf %s %s %s 71 N 0" % (a, h(pk), h(s))]
    return out


# ------------------------------------------------------------------ hashing
def sha2_lens(r, num, top=600):
    out = list(range(0, 3)) + [d + b for b in (64, 128, 256, 384, 512) for d in (-18, -17, -16, -15, -9, -8, -1, 0, 1)]
    r.shuffle(out)
    while len(out) < num:
        out.append(r.randrange(top))
    return out[:num]


def msg(r, n):
    c = r.randrange(8)
    return bytes(n) if c == 0 else b"\xff" * n if c == 1 else r.randbytes(n)


def oneshot(r, algs, lens):
    out = []
    for a in algs:
        for n in lens:
            if a in (128, 256):
                ol = r.choice([0, 1, 16, 32, 57, 64, 114, 135, 136, 137, 167, 168, 169, 272, 336, r.randrange(600)])
            else:
                ol = 64 if a == 512 else 48 if a == 384 else (a - 3000) // 8
            out += ["R", "B %s hs %d %s %d" % (place(r), a, h(msg(r, n)), ol)]
    return out


def olen(r, a):
    if a in (128, 256):
        rate = 168 if a == 128 else 136
        return r.choice([0, 1, 7, 8, 9, 32, 64, 114, rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 2 * rate + 1, r.randrange(700)])
    return 64 if a == 512 else 48 if a == 384 else (a - 3000) // 8


def block(a):
    return {512: 128, 384: 128, 128: 168, 256: 136, 3224: 144, 3256: 136, 3384: 104, 3512: 72}[a]


def close(r, k, alg):
    """end of a stream; SHA-2 messages may end inside a byte"""
    if alg in (512, 384) and r.random() < .3:
        return "B %s hb %d %d %d %d" % (place(r), k, 64 if alg == 512 else 48, r.choice([0, 255, 128, 1, r.randrange(256)]), r.randrange(8))
    return "B %s hf %d %d" % (place(r), k, olen(r, alg))


def bitlengths(r, algs, lens):
    """messages of every length modulo 8 bits, around the padding boundaries, in contexts used again after closing"""
    out = []
    for a in algs:
        out += ["R", "B a hi 0 %d" % a]
        for n in lens:
            out += ["B %s hu 0 %s" % (place(r), h(msg(r, n))), close(r, 0, a)]
    for i, n in enumerate((0, 1, 109, 110, 111, 112, 113, 119, 120, 126, 127, 128, 239, 240)):
        for b in range(8):
            a = algs[(i + b) % len(algs)]
            out += ["R", "B a hi 0 %d" % a, "B %s hu 0 %s" % (place(r), h(msg(r, n))),
                    "B %s hb 0 %d %d %d" % (place(r), 64 if a == 512 else 48, r.choice([0, 255, r.randrange(256), r.randrange(256)]), b),
                    "B %s hf 0 %d" % (place(r), 64 if a == 512 else 48)]
    return out


def compressions(r, num):
    """the compression function on chosen words"""
    out = []
    for _ in range(num):
        def w(n):
            c = r.randrange(4)
            return bytes(8 * n) if c == 0 else b"\xff" * 8 * n if c == 1 else r.randbytes(8 * n)
        out += ["R", "B a hp %s %s" % (h(w(16)), h(w(8)))]
    return out


def streams(r, algs, num):
    """several contexts open at once, fed in pieces, cloned and finished in any order"""
    out = []
    for _ in range(num):
        out.append("R")
        live, ndata = {}, {}
        for _ in range(r.randrange(8, 30)):
            c = r.random()
            free = [k for k in range(4) if k not in live]
            if (c < .25 and free) or not live:
                k = r.choice(free or [0])
                live[k] = r.choice(algs)
                ndata[k] = 0
                out.append("B a hi %d %d" % (k, live[k]))
            elif c < .75:
                k = r.choice(sorted(live))
                b = block(live[k])
                left = b - ndata[k] % b
                n = r.choice([0, 1, 2, 3, 7, 8, 9, left, left - 1, left + 1, b, b - 1, b + 1, 2 * b, 2 * b + 1, left + b, left + 2 * b, r.randrange(300), left // 2])
                n = max(0, n)
                if live[k] in (512, 384):
                    q = r.random()
                    if q < .3:   # leave exactly the padding boundary
                        n = (b - 16 - ndata[k]) % b + r.choice([-1, 0, 1, 0])
                        n = max(0, n)
                ndata[k] += n
                out.append("B %s hu %d %s" % (place(r), k, h(msg(r, n))))
            elif c < .82 and free:
                k = r.choice(sorted(live))
                t = r.choice(free)
                live[t], ndata[t] = live[k], ndata[k]
                out.append("B a hc %d %d" % (t, k))
            else:
                k = r.choice(sorted(live))
                out.append(close(r, k, live[k]))
                if live[k] in (512, 384) and r.random() < .5:
                    ndata[k] = 0      # a closed context starts over
                else:
                    del live[k]
        for k in sorted(live):
            out.append(close(r, k, live[k]))
    return out


def splits(r, algs, total, num):
    """one message cut in two and three places"""
    out = []
    for a in algs:
        for _ in range(num):
            b = block(a)
            n = r.choice([total, b, 2 * b, b + 1, 2 * b - 1, 3 * b, r.randrange(total + 1)])
            m = msg(r, n)
            cuts = sorted(r.choice([r.randrange(n + 1), min(n, b), min(n, b - 1), min(n, b + 1), 0, n]) for _ in range(r.randrange(1, 5)))
            out += ["R", "B a hi 0 %d" % a]
            for i, j in zip([0] + cuts, cuts + [n]):
                out.append("B %s hu 0 %s" % (place(r), h(m[i:j])))
            out.append("B %s hf 0 %d" % (place(r), olen(r, a)))
    return out


def twoway(r, lens):
    out = []
    for n in lens:
        out += ["R", "B %s h2 0 %s %s" % (place(r), h(msg(r, n)), h(msg(r, n)))]
        if r.random() < .2:
            m = r.randbytes(n)
            out += ["B %s h2 0 %s %s" % (place(r), h(m), h(m))]
    for _ in range(12):
        out += ["R", "B %s h2 1 %s %s" % (place(r), h(msg(r, 32)), h(msg(r, 32)))]
    return out


# ------------------------------------------------------------ hash to curve
def h2c(r, lens, impls=("x", "a")):
    out = []
    for n in lens:
        m = msg(r, n)
        out.append("R")
        for i in impls:
            out += ["B %s h2c %s %s" % (place(r), i, h(m))]
            if r.random() < .5:
                out += ["B %s h2f %s %s" % (place(r), i, h(m))]
    return out


def elligator_u(r):
    p = P25519
    A = 486662
    c = r.randrange(12)
    k = r.choice([0, 1, 2, 3, r.randrange(100)])
    if c == 0:
        v = k
    elif c == 1:
        v = p - k
    elif c == 2:
        v = p + k
    elif c == 3:       # 1 + 2u^2 = 0 has no solution when -1/2 is no square; neighbours
        s = sqrtm(-pow(2, -1, p), p)
        v = s if s is not None else sqrtm(pow(2, -1, p) + k, p) or 5
    elif c == 4:       # exceptional values of the map: g(x) = 0
        s = sqrtm((-A * k - 1) * pow(2, -1, p), p)
        v = s if s is not None else 7
    elif c == 5:       # 1 + 2u^2 near the folding boundaries
        s = None
        while s is None:
            s = sqrtm((near(r, 255) - 1) * pow(2, -1, p), p)
        v = s
    elif c == 6:       # u^2 near the boundaries
        s = None
        while s is None:
            s = sqrtm(near(r, 255), p)
        v = s
    elif c == 7:
        v = (1 << 255) - 1 - k
    elif c == 8:
        v = 1 << r.randrange(255)
    elif c == 9:       # x = -A/(1+2u^2) equal to a chosen small value
        x = r.choice([1, -1, 2, -2, A, -A, 9, k or 3]) % p
        s = sqrtm((-A * pow(x, -1, p) - 1) * pow(2, -1, p), p)
        v = s if s is not None else 11
    else:
        v = r.getrandbits(255)
    return le(v % (1 << 255), 32)


def m2c(r, num):
    out = []
    for _ in range(num):
        a, b = elligator_u(r), elligator_u(r)
        out += ["R", "B a m2c x %s %s" % (h(a), h(b)), "B a m2c a %s %s" % (h(a), h(b))]
    return out


def points(r, num):
    """predicates on points: on the curve, off the curve, other representatives"""
    e, p = E25519, P25519
    out = []

    def xy(P):
        return le(P[0], 32) + le(P[1], 32)

    def rep(P):
        return tuple(v + p if v < 19 and r.random() < .5 else v for v in P)
    tors = e.torsion()
    for i in range(num):
        P = r.choice([e.mul(r.randrange(1, e.L), e.B), r.choice(tors), e.B, e.add(e.mul(r.randrange(e.L), e.B), r.choice(tors))])
        c = r.randrange(9)
        Q = P
        if c == 0:
            Q = ((P[0] + 1) % p, P[1])
        elif c == 1:
            Q = (P[0], (P[1] + 1) % p)
        elif c == 2:
            Q = e.neg(P)
        elif c == 3:
            Q = (P[1], P[0])
        elif c == 4:
            Q = (r.getrandbits(255), r.getrandbits(255))
        elif c == 5:
            Q = (P[0], -P[1] % p)
        elif c == 6:
            Q = (r.choice([0, 1, p - 1]), r.choice([0, 1, p - 1]))
        elif c == 7:   # differs in one bit of a word
            Q = (P[0] ^ (1 << r.randrange(255)), P[1]) if r.random() < .5 else (P[0], P[1] ^ (1 << r.randrange(255)))
        out += ["R", "B a onc %s" % h(xy(rep(P))), "B a onc %s" % h(xy(rep(Q))), "B a aeq %s %s" % (h(xy(rep(P))), h(xy(rep(Q)))), "B a aeq %s %s" % (h(xy(rep(P))), h(xy(rep(P))))]
    return out


def reductions(r, num):
    """reduction modulo the group order: multiples of the order and of the
    splitting power, and their neighbours"""
    L = L25519
    v = [0, 1, L - 1, L, L + 1, 2 * L, 2**252, 2**252 - 1, 2**252 + 1, 2**253, 2**255, 2**256 - 1, 2**256, 2**511, 2**512 - 1, L * L, L * L - 1, L << 252, L << 255, 16 * L, 16 * L - 1]
    v += [(s << 256 << j) + lo for s in (1, 2, 2**64 - 1) for j in (0, 64, 128, 192) for lo in (0, 2**256 - 1)]
    while len(v) < num:
        c = r.randrange(8)
        if c > 4:  # one of the two folds meets a difference next to 0
            e = 16 * L - 2**256
            y = pg.edge(r, r.choice([64, 128, 129, 256])) if c < 7 else pg.words(r, 4, True)
            s = r.choice([y * e, pg.partial(r, e, y)])
            x = (y << 256) + (s + r.choice([0, 1, -1, -pg.edge(r, 100), pg.edge(r, 256)])) % 2**256
            if r.random() < .4:  # the second one
                z = pg.edge(r, r.choice([1, 64, 128, 129]))
                y = (-z) % 2**256
                w = (r.choice([y * e, pg.partial(r, e, y)]) + r.choice([0, 1, -1, pg.edge(r, 256)])) % 2**256 - (z << 256)
                y = max(-(w // e), 0) + r.choice([0, 0, 1])
                x = (y << 256) + (w + y * e) % 2**256
            v.append(x % 2**512)
            continue
        k = r.choice([r.randrange(64), r.getrandbits(128), r.getrandbits(258)])
        v.append((k * L + r.choice([0, -1, 1, r.randrange(100), -r.randrange(100)]) if c == 0 else
                  (k << 252) + r.choice([0, -1, 1, r.randrange(100)]) if c == 1 else
                  r.getrandbits(512) if c == 2 else r.getrandbits(256) << 256 if c == 3 else
                  (1 << r.randrange(512)) - r.choice([0, 1])) % 2**512)
    out = []
    for x in v:
        out += ["R", "B a mr %s" % h(le(x, 64))]
    return out


# ------------------------------------------------------------ long messages
def ends(r):
    return r.randbytes(r.choice([0, 1, 37, 127, 128, 135, 136, r.randrange(400)])), r.randbytes(r.choice([0, 1, 111, 112, 127, r.randrange(300)]))


def over(r, bits=32):
    """some zero bytes, such that the length is a little more than 2^bits"""
    a, b = ends(r)
    j = r.choice([0, 1, r.randrange(300), r.randrange(5000)])
    return a, max((1 << bits) + j - len(a) - len(b), 1), b


def long_hash(r, algs, chunks=(0,), bits=32):
    out = []
    for a in algs:
        for c in chunks:
            x, n, y = over(r, bits)
            ol = 64 if a == 512 else 48 if a == 384 else (a - 3000) // 8 if a > 3000 else r.choice([16, 32, 64, 200])
            out += ["R", "L hs %d %s %d %s %d %d" % (a, h(x), n, h(y), c, ol)]
    return out


def long_two(r, bits=None):
    x, y = ends(r)
    n = ((1 << bits) + r.randrange(300) if bits else (1 << 32) - 1 - r.randrange(200)) - len(x) - len(y)
    return ["R", "L h2 %s %s %d %s %s" % (h(x), h(r.randbytes(len(x))), n, h(y), h(r.randbytes(len(y))))]


def long_field(r, impl, bits):
    x, n, y = over(r, bits)
    return ["R", "L h2f %s %s %d %s" % (impl, h(x), n, h(y))]


def long_sign(r, algs, bits=32):
    out = []
    for a in algs:
        e = ed(a)
        x, n, y = over(r, bits)
        sk = r.randbytes(e.n)
        out += ["R", "L sg %s %s %s %s %d %s %s" % (a, h(e.pub(sk)), h(sk), h(x), n, h(y), h(context(r, a)))]
    return out


def long_verify(r, algs, good, bits=32):
    """a valid signature of the long message; and one of the message that
    remains when its length is taken modulo 2^bits"""
    out = []
    for a in algs:
        e = ed(a)
        x, n, y = over(r, bits)
        sk, ctx = r.randbytes(e.n), context(r, a)
        m = x + bytes(min(n, 6000))
        pk, s = e.sign(a, sk, m[:(len(x) + n + len(y)) % (1 << bits)], ctx)
        out += ["R", "L vf %s %s %s %s %d %s %s" % (a, h(pk), h(s), h(x), n, h(y), h(ctx))]
        if good:
            s = e.sign_long(a, sk, r.randrange(e.L), x, n, y, ctx)
            out += ["R", "L vf %s %s %s %s %d %s %s" % (a, h(pk), h(s), h(x), n, h(y), h(ctx))]
    return out


# ----------------------------------------------------------- random source
WHATS = ["x25519", "x25519_x64", "x448", "ed25519", "ed25519ctx", "ed25519ph", "ed448", "ed448ph",
         "f255.f", "f255.r", "f255.t", "f255.q", "f448.f", "f448.r", "f448.t", "f448.q"]


def random_faults(r, scripts, num):
    """fault scripts enumerated by the specification, for every requester"""
    out = []
    for w in WHATS:
        for s in ["-", "3", "i", "9i2", "111111", "O", "P", "z", "e", "f*", "1*", "i*", "z*", "e*"]:
            out += ["R", "Q %s 0 %s" % (w, s)]
    for i, s in enumerate(scripts):
        n = r.choice([1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 56, 57, 63, 64, 100, 255, 256, 257, 1000])
        out += ["R", "Q prgn %d %s" % (n, s)]
    for _ in range(num):
        s = "".join(r.choice("fi123456789oOPez") for _ in range(r.randrange(1, 12))) + r.choice(["", "", "*"])
        out += ["R", "Q %s %d %s" % (r.choice(["prgn"] * 3 + WHATS), r.randrange(1, 300), s)]
    for n in (0, 1, 255, 256, 257, 4095, 4096, 4097):
        out += ["R", "Q prgn %d -" % n, "R", "Q prgn %d 9i3" % n]
    return out


# ------------------------------------------------------------- mixed histories
def bodies(lines):
    """the histories of a script without their R lines"""
    out = []
    for l in lines:
        if l == "R":
            out.append([])
        else:
            out[-1].append(l)
    return [x for x in out if x]


def interleave(r, seqs):
    """one sequence that keeps the order inside each of seqs"""
    seqs = [list(s) for s in seqs if s]
    tot = [len(s) for s in seqs]
    order = [i for i, n in enumerate(tot) for _ in range(n)]
    r.shuffle(order)
    at = [0] * len(seqs)
    out = []
    for i in order:
        out.append(seqs[i][at[i]])
        at[i] += 1
    return out


def byte_pool(r, k):
    """k histories or so of every kind of byte-level call"""
    pool = {}
    for alg in ("x25519", "x25519_x64", "x448"):
        pool["dh " + alg] = bodies(dh_shared(r, alg, k))[-k:] + bodies(dh_keygen(r, alg, k))[-k:]
    for alg in V25519 + V448:
        pool["sign " + alg] = bodies(ed_sign(r, alg, k))[:k] + bodies(ed_sign_only(r, alg, k))
        pool["verify " + alg] = bodies(ed_verify_random(r, alg, k)) + bodies(ed_verify_chosen(r, alg, k))
    pool["domains"] = bodies(domains(r, 1))
    pool["aliased"] = bodies(aliased(r, 1))
    pool["hash"] = bodies(oneshot(r, [512, 384] + [3224, 3256, 3384, 3512, 128, 256], [r.randrange(400) for _ in range(max(1, k // 3))]))
    pool["twoway"] = bodies(twoway(r, [r.randrange(400) for _ in range(k)]))
    pool["h2c"] = bodies(h2c(r, [r.randrange(300) for _ in range(k)]))
    pool["m2c"] = bodies(m2c(r, k))
    pool["points"] = bodies(points(r, k))
    pool["mr"] = bodies(reductions(r, 25 + k))[-k:]
    return pool


def mixed(r, num, walks, per=8):
    """histories that interleave field walks, open hash contexts and calls of
    every kind: results may depend on nothing but the arguments"""
    walks = {fd: bodies(w) for fd, w in walks.items()}
    pool = byte_pool(r, max(4, num // 3))
    kinds = sorted(pool)
    out = []
    st = bodies(streams(r, [512, 384, 3224, 3256, 3384, 3512, 128, 256], num))
    for i in range(num):
        seqs = [r.choice(pool[r.choice(kinds)]) for _ in range(per)]
        seqs.append(st[i])
        for fd, w in walks.items():
            if w:
                seqs.append(w[i % len(w)])
        m = interleave(r, seqs)
        # the same call again later in the history
        again = [l for l in m if l.startswith("B") and l.split()[2] in ("kg", "dh", "sg", "vf", "hs", "h2c", "mr")]
        m += r.sample(again, min(3, len(again)))
        out += ["R"] + m
    return out


def same_kind(r, k):
    """one kind of call after the other, for threads running side by side"""
    out = []
    pool = byte_pool(r, k)
    for kind in sorted(pool):
        hs = pool[kind]
        r.shuffle(hs)
        for hh in hs[:2 * k]:
            out += ["R"] + hh
    for b in bodies(streams(r, [512, 384, 3256, 128, 256], k)):
        out += ["R"] + b
    return out


# ------------------------------------------------- secret-independent traces
def ct_secrets(r, n, num):
    bits = 8 * n
    out = [bytes(n), b"\xff" * n, b"\x55" * n, b"\x88" * n, b"\x77" * n, b"\x0f" * n, le(1 << (bits - 2), n), le(1, n), le(8, n)]
    out += [le(sum(((i + k) & 15) << (4 * i) for i in range(bits // 4)), n) for k in (0, 5, 8)]
    out += scalars(r, n, L448 if n >= 56 else L25519, 2 if n >= 56 else 3, 40)[-20:]
    r.shuffle(out)
    while len(out) < num:
        out.append(r.randbytes(n))
    return [bytes(n)] + out[:num - 1]


def ct_runs(r, num):
    """(public part, secret, script line) triples of every secret-key operation"""
    out = []
    for alg, n in (("x25519", 32), ("x25519_x64", 32), ("x448", 56)):
        f = x448 if n == 56 else x25519
        peers = [f(r.randbytes(n), le(5 if n == 56 else 9, n)), le(9, n), le(0, n)]
        for pub, op in [("-", "kg"), (h(peers[0]), "dh"), (h(r.choice(peers[1:])), "dh")]:
            out.append([("%s %s %s" % (alg, op, pub), k.hex(), "%s %s %s %s - -" % (alg, op, k.hex(), pub)) for k in ct_secrets(r, n, num)])
    for alg in V25519 + V448:
        n = ed(alg).n
        out.append([("%s kg" % alg, k.hex(), "%s kg %s - - -" % (alg, k.hex())) for k in ct_secrets(r, n, max(3, num // 2))])
        for ml in r.sample([0, 1, 50, 111, 112, 128, 200], 2):
            m, c, pk = h(r.randbytes(ml)), h(context(r, alg)), h(r.randbytes(n))
            pub = "%s sg %s %s %s" % (alg, pk, m, c)
            out.append([(pub, k.hex(), "%s sg %s %s %s %s" % (alg, k.hex(), pk, m, c)) for k in ct_secrets(r, n, max(3, num // 2))])
    return out


# ------------------------------------------------------------------ objects
KEYS = ["x25519", "x25519_x64", "x448", "ed25519", "ed25519ctx", "ed25519ph", "ed448", "ed448ph"]
SIGS = [k + ".sig" for k in KEYS if k.startswith("ed")]
ELTS = ["f%d.%s" % (fd, rep) for fd in (255, 448) for rep in "frtq"]


def osize(w):
    n = 56 if w.startswith("x448") else 57 if w.startswith("ed448") else 32
    return 2 * n if w.endswith(".sig") else n


def objects(r, num, calls):
    """histories of sizes, allocations (some refused), releases in any order, and
    printing, with other calls in between; nothing may be left behind"""
    out = []
    every = KEYS + SIGS + ELTS
    turn = sorted(calls)
    for i in range(num):
        out.append("R")
        live = {}
        kinds = every if i % 3 == 0 else r.sample(every, 3)
        for w in kinds if i % 3 == 0 else []:
            if w not in ELTS:
                out.append("O size " + w)
        for step in range(len(every) if i % 3 == 0 else 30):
            free = [s for s in range(32) if s not in live]
            c = r.random()
            if i % 3 == 0 or (c < 0.5 and free):
                w = every[step] if i % 3 == 0 else r.choice(kinds)
                s = r.choice(free)
                ref = int(r.random() < 0.1)
                out.append("O alloc %s %d %d" % (w, s, ref))
                if not ref:
                    live[s] = w
            elif c < 0.75 and live:
                s = r.choice(sorted(live))
                out.append("O free %s %d" % (live.pop(s), s))
            elif c < 0.8:
                out.append("O free %s -1" % r.choice(every))
            if i % 3 and c > 0.8:
                turn = turn[1:] + turn[:1]
                out += r.choice(calls[turn[0]])
            if r.random() < 0.1:
                out.append("O keep")
            if len(live) > 30:
                break
        for s in r.sample(sorted(live), len(live) - (i % 2) * len(live) // 3):
            out.append("O free %s %d" % (live.pop(s), s))
        out.append("O keep")
    return out


def prints(r, num):
    out = []
    for w in KEYS + SIGS:
        n = osize(w)
        for k in range(num):
            b = [bytes(n), b"\xff" * n, le(1, n), bytes(n - 1) + b"\x80", bytes(range(1, n + 1)), b"\x0f" * n, b"\xa0" * n][k] if k < 7 else r.randbytes(n)
            out += ["R", "O print %s %s" % (w, b.hex())]
    for k in range(num):
        x, y = (r.choice([0, 1, P25519 - 1, r.getrandbits(254), r.getrandbits(200), r.getrandbits(254) & ~0xff]) for _ in "xy")
        out += ["R", "O point %s %s" % (le(x, 32).hex(), le(y, 32).hex())]
    return out
