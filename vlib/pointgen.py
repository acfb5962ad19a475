"""Operands for the point formulas: points of the curve in projective
coordinates chosen so that two coordinates (or a coordinate of a table entry)
have digits that leave the least room for carries and borrows."""
from .fieldgen import prime, widths, LANES

D = {}
FORMS = {  # op -> rep, coordinates of q and of p
    "mix4way": ("q", 4, 3), "mix4w": ("q", 1, 1), "dbl4w": ("q", 1, 0), "add2w": ("t", 2, 2), "dbl2w": ("t", 2, 0),
    "iso2w": ("t", 2, 0), "add2way": ("t", 4, 4), "dbl2way": ("t", 4, 0), "add1w": ("f", 4, 4), "dbl1w": ("f", 4, 0)}


def dcoef(fd):
    p = prime(fd)
    return (-121665 * pow(121666, -1, p)) % p if fd == 255 else p - 39082


def sqrt(a, p):
    a %= p
    if p % 4 == 3:
        x = pow(a, (p + 1) // 4, p)
    else:
        x = pow(a, (p + 3) // 8, p)
        if x * x % p != a:
            x = x * pow(2, (p - 1) // 4, p) % p
    return x if x * x % p == a else None


def val(fd, rep, ds):
    v = sh = 0
    for d, w in zip(ds, widths(fd, rep)):
        v += d << sh
        sh += w
    return v


def digits(r, fd, rep, v):
    """a residue as digits; now and then not the canonical one"""
    p = prime(fd)
    v %= p
    t = sum(widths(fd, rep))
    if v + p < 1 << t and r.random() < .5:
        v += p
    out = []
    for w in widths(fd, rep):
        out.append(v & ((1 << w) - 1))
        v >>= w
    return out


def extreme(r, fd, rep):
    w = widths(fd, rep)
    m = [(1 << x) - 1 for x in w]
    c = r.randrange(9)
    if c < 3:
        return m
    if c < 5:
        return [0] * len(w)
    if c == 5:
        return [x - r.randrange(3) for x in m]
    if c == 6:
        return [r.choice([0, x]) for x in m]
    if c == 7:
        k = r.randrange(len(w))
        return [x if i == k else 0 for i, x in enumerate(m)]
    return [r.randrange(x + 1) for x in m]


def nudge(r, fd, rep, ds):
    ds = list(ds)
    i = r.randrange(len(ds))
    m = (1 << widths(fd, rep)[i]) - 1
    k = r.randrange(1, 8)
    ds[i] = ds[i] - k if ds[i] > m // 2 else ds[i] + k
    return ds


def complete(r, fd, names, a, b):
    """the other coordinates of a point with two given ones"""
    p, d = prime(fd), dcoef(fd)

    def inv(x):
        return pow(x % p, -1, p)

    def quad(B, C):   # w^2 - B w + C = 0, w a square
        s = sqrt(B * B - 4 * C, p)
        if s is None:
            return None
        for e in r.sample([s, -s], 2):
            t = sqrt((B + e) * inv(2), p)
            if t:
                return r.choice([t, p - t])
        return None
    try:
        if names == "XY":
            X, Y = a, b
            Z = quad(Y * Y - X * X, d * X * X * Y * Y)
            if not Z:
                return None
            T = X * Y * inv(Z)
        elif names == "TZ":
            T, Z = a, b
            if Z % p == 0:
                return None
            X = quad(-(Z * Z + d * T * T), -T * T * Z * Z)
            if not X:
                return None
            Y = T * Z * inv(X)
        elif names == "XZ":
            X, Z = a, b
            Y = sqrt((Z ** 4 + X * X * Z * Z) * inv(Z * Z - d * X * X), p)
            if Y is None or Z % p == 0:
                return None
            Y *= r.choice([1, -1])
            T = X * Y * inv(Z)
        elif names == "YZ":
            Y, Z = a, b
            X = sqrt((Y * Y * Z * Z - Z ** 4) * inv(Z * Z + d * Y * Y), p)
            if X is None or Z % p == 0:
                return None
            X *= r.choice([1, -1])
            T = X * Y * inv(Z)
        elif names == "XT":
            X, T = a, b
            Z = sqrt((X * X + d * T * T) * X * X * inv(T * T - X * X), p)
            if not Z:
                return None
            Z *= r.choice([1, -1])
            Y = T * Z * inv(X)
        else:  # YT
            Y, T = a, b
            Z = sqrt((Y * Y - d * T * T) * Y * Y * inv(Y * Y + T * T), p)
            if not Z:
                return None
            Z *= r.choice([1, -1])
            X = T * Z * inv(Y)
    except ValueError:
        return None
    return {"X": X % p, "Y": Y % p, "T": T % p, "Z": Z % p}


def point(r, fd, rep, benign=False):
    """the digits of X, Y, T, Z"""
    p = prime(fd)
    w = widths(fd, rep)
    if not benign and r.random() < .25:   # x = 0, or y = 0
        z = extreme(r, fd, rep)
        while val(fd, rep, z) % p == 0:
            z = nudge(r, fd, rep, z)
        zero = [digits(r, fd, rep, 0) for _ in range(2)]
        if fd == 255 and r.random() < .3:
            i = sqrt(-1, p)
            return {"X": digits(r, fd, rep, r.choice([1, -1]) * i * val(fd, rep, z)), "Y": zero[0], "T": zero[1], "Z": z}
        y = z if r.random() < .6 else digits(r, fd, rep, -val(fd, rep, z))
        q = {"X": zero[0], "Y": y, "T": zero[1], "Z": z}
        if r.random() < .3:
            q["Y"], q["Z"] = q["Z"], q["Y"]
        return q
    while True:
        names = "XY" if benign else r.choice(["XY", "XY", "XY", "TZ", "XZ", "YZ", "XT", "YT"])
        f = (lambda: [r.randrange(1 << x) for x in w]) if benign else (lambda: extreme(r, fd, rep))
        a, b = f(), f()
        for _ in range(12):
            q = complete(r, fd, names, val(fd, rep, a) % p, val(fd, rep, b) % p)
            if q:
                out = {k: digits(r, fd, rep, x) for k, x in q.items()}
                out[names[0]], out[names[1]] = a, b
                return out
            if r.random() < .5:
                a = nudge(r, fd, rep, a)
            else:
                b = nudge(r, fd, rep, b)


def pmulmod(f, g, m, p):
    """product of polynomials (coefficients from the constant up) modulo the monic m"""
    out = [0] * (len(f) + len(g) - 1)
    for i, x in enumerate(f):
        for j, y in enumerate(g):
            out[i + j] += x * y
    return prem(out, m, p)


def prem(f, m, p):
    f = [x % p for x in f]
    n = len(m) - 1
    while len(f) > n:
        c = f.pop()
        if c:
            for i in range(n):
                f[len(f) - n + i] = (f[len(f) - n + i] - c * m[i]) % p
    while f and f[-1] == 0:
        f.pop()
    return f


def ppow(f, e, m, p):
    out = [1]
    for b in bin(e)[2:]:
        out = pmulmod(out, out, m, p)
        if b == "1":
            out = pmulmod(out, f, m, p)
    return out


def pgcd(f, g, p):
    while g:
        c = pow(g[-1], -1, p)
        g = [x * c % p for x in g]
        f, g = g, prem(f, g, p)
    return f


def roots(r, f, p):
    c = pow(f[-1], -1, p)
    f = [x * c % p for x in f]
    x = ppow([0, 1], p, f, p)
    x = x + [0] * (2 - len(x))
    x[1] = (x[1] - 1) % p
    while x and x[-1] == 0:
        x.pop()
    g = pgcd(f, x, p) if x else f
    todo, out = [g], []
    while todo:
        g = todo.pop()
        if len(g) == 2:
            out.append(-g[0] % p)
        elif len(g) > 2:
            h = ppow([r.randrange(p), 1], (p - 1) // 2, g, p)
            h = (h + [0])[:]
            h[0] = (h[0] - 1) % p
            while h and h[-1] == 0:
                h.pop()
            k = pgcd(g, h, p) if h else g
            if 1 < len(k) < len(g):
                q, rem = [], list(g)
                while len(rem) >= len(k):   # g / k, both monic
                    c = rem[-1]
                    q.append(c)
                    for i in range(len(k)):
                        rem[len(rem) - len(k) + i] = (rem[len(rem) - len(k) + i] - c * k[i]) % p
                    rem.pop()
                todo += [k, q[::-1]]
            else:
                todo.append(g)
    return out


def entry(r, fd, rep, benign=False, affine=False):
    """digits of y - x, y + x, 2dt, 2z"""
    p, d = prime(fd), dcoef(fd)
    w = widths(fd, rep)
    while True:
        f = (lambda: [r.randrange(1 << x) for x in w]) if benign else (lambda: extreme(r, fd, rep))
        s, a = f(), f()
        if not benign and r.random() < .2:   # the neutral element (x = 0), entries equal
            z = 1 if affine else val(fd, rep, s) % p
            if z == 0:
                continue
            e = digits(r, fd, rep, z) if affine else s
            return [e, e if r.random() < .5 else digits(r, fd, rep, z), digits(r, fd, rep, 0), digits(r, fd, rep, 2 * z)]
        for _ in range(8):
            if affine:
                c = d * pow(16, -1, p)
                v = val(fd, rep, s) % p
                # 1 + c (a^2 - v^2)^2 - v a
                R = roots(r, [(1 + c * v ** 4) % p, -v % p, -2 * c * v * v % p, 0, c], p)
                if R:
                    u = r.choice(R)
                    x, y = (u - v) * pow(2, -1, p) % p, (u + v) * pow(2, -1, p) % p
                    t = digits(r, fd, rep, 2 * d * x * y)
                    u = digits(r, fd, rep, u)
                    if r.random() < .5:   # the negative of the point
                        return [u, s, digits(r, fd, rep, -val(fd, rep, t)), None]
                    return [s, u, t, None]
                s = nudge(r, fd, rep, s)
            else:
                v, u = val(fd, rep, s), val(fd, rep, a)
                q = complete(r, fd, "XY", (u - v) * pow(2, -1, p) % p, (u + v) * pow(2, -1, p) % p)
                if q:
                    return [s, a, digits(r, fd, rep, 2 * d * q["T"]), digits(r, fd, rep, 2 * q["Z"])]
                if r.random() < .5:
                    s = nudge(r, fd, rep, s)
                else:
                    a = nudge(r, fd, rep, a)


def hexof(coords):
    return "".join(x.to_bytes(8, "little").hex() for lanes in coords for ds in lanes for x in ds)


def lines(r, fd, op, n, benign=False):
    rep, nq, np = FORMS[op]
    out = []
    pool, epool = [], []   # four-way operands are expensive: reuse lanes

    def pt():
        return point(r, fd, rep, benign)

    def layout(pts, k):
        if k == 1:
            return [[pts[0][c] for c in "XYTZ"]]
        if k == 2:
            return [[pts[0]["X"], pts[0]["Y"]], [pts[0]["T"], pts[0]["Z"]]]
        return [[q[c] for q in pts] for c in "XYTZ"]
    for _ in range(n):
        ln = LANES[rep] if nq == 4 else 1
        q = layout([pt() for _ in range(ln)], nq)
        if op == "mix4way":
            while len(epool) < max(4, n // 2):
                epool.append(entry(r, fd, rep, benign, True))
            es = [r.choice(epool) for _ in range(4)]
            p = [[e[c] for e in es] for c in range(3)]
        elif op == "mix4w":
            p = [entry(r, fd, rep, benign)]
        elif np:
            p = layout([pt() for _ in range(ln)], np)
        else:
            p = []
        out += ["R", "P %d %s %s %d %d %s %s" % (fd, op, rep, nq, np, hexof(q), hexof(p) or ".")]
    return out


# ------------------------------------------------- modulo the group order
L = {255: 2**252 + 0x14def9dea2f79cd65812631a5cf5d3ed,
     448: 2**446 - 0x8335dc163bb124b65129c96fde933d8d723a70aadc873d6d54a7bb0d}
SIZES = {"red64": [40], "modl": [114], "div4": [57], "calcs": None}


def word(r):
    c = r.randrange(6)
    return (0 if c == 0 else 2**64 - 1 if c == 1 else r.getrandbits(64) if c < 4 else
            1 << r.randrange(64) if c == 4 else (1 << r.randrange(1, 65)) - 1)


def words(r, n, z=None):
    """n words, long runs of 0 and of ones likely"""
    z = r.random() < .5 if z is None else z
    return sum((r.choice([0, 0, 0, word(r)]) if z else word(r)) << 64 * i for i in range(n))


def edge(r, bits):
    c = r.randrange(6)
    return (r.choice([0, 1, 2**bits - 1, 2**bits - 2]) if c == 0 else 1 << r.randrange(bits) if c == 1 else
            (1 << r.randrange(bits)) - 1 if c == 2 else words(r, (bits + 63) // 64) if c == 3 else
            r.getrandbits(64) if c == 4 else 2**bits - 1 - r.getrandbits(64)) % 2**bits


def partial(r, n, m, shift=0):
    """the sum of some of the products of the words of two numbers"""
    s = 0
    how = r.randrange(3)
    cut = r.randrange(1, 40)
    k = 0
    for i in range((n.bit_length() + 63) // 64):
        for j in range((m.bit_length() + 63) // 64):
            k += 1
            if how == 0 or (how == 1 and k <= cut) or (how == 2 and r.random() < .5):
                s += ((n >> 64 * i & 2**64 - 1) * (m >> 64 * j & 2**64 - 1)) << 64 * (i + j)
    return s


def scalars(r, fd, op, n, benign=False):
    q = L[fd]
    out = []
    while len(out) < 2 * n:
        if op == "red64":
            hi = r.randrange(16) if benign or r.random() < .7 else r.randrange(64)
            e = q - 2**252
            lo = r.getrandbits(252)
            if not benign:
                c = r.randrange(5)
                d = r.choice([0, 1, -1, r.randrange(2**64), -r.randrange(2**64), edge(r, 252)])
                lo = (hi * e + d if c == 0 else partial(r, e, hi) + d if c == 1 else (hi + 1) * e + d if c == 2 else
                      (hi * e >> 64 << 64) + d if c == 3 else edge(r, 252)) % 2**252
            x = lo + (hi << 256)
            b = x.to_bytes(40, "little")
        elif op == "calcs":
            w = 32 if fd == 255 else 56
            m = 8 * w
            if benign:
                v = [r.randrange(q) for _ in range(3)]
            else:
                h = r.choice([r.randrange(q), words(r, w // 8), edge(r, m), q - 1 - r.randrange(3)])
                a = r.choice([r.randrange(q), words(r, w // 8), edge(r, m), q - 1 - r.randrange(3), 2 ** (m - 1) - 8])
                s = r.choice([h * a, partial(r, h, a)])
                v = [r.choice([edge(r, m) - s, edge(r, m), r.randrange(q), -(h * a) % q + r.choice([0, 1, -1])]) % 2**m, h, a]
            b = b"".join(x.to_bytes(w, "little") for x in v)
        elif op == "div4":
            x = r.randrange(q) if benign else r.choice([edge(r, 446), 4 * edge(r, 444), r.randrange(16), 4 * edge(r, 444) - q, q - 1 - r.randrange(9)]) % 2**448
            b = x.to_bytes(57, "little")
        else:
            k = 4 * (2**446 - q)
            if benign:
                x = r.getrandbits(912)
            else:
                hi = r.choice([words(r, 8) % 2**464, edge(r, 464), edge(r, r.choice([64, 128, 256, 400]))])
                c = r.randrange(6)
                if c == 5:  # the third fold reaches 2^448, or nearly
                    y = r.getrandbits(r.choice([1, 2, 10, 18])) * 2**448 + (2**448 - edge(r, 240)) % 2**448
                    for _ in range(2):
                        h2 = max(y // k - r.choice([0, 0, 1]), 0) % 2**464
                        y = h2 * 2**448 + (y - h2 * k) % 2**448
                    x = y
                elif c == 0:
                    x = hi * 2**448 + (edge(r, 448) - hi * k) % 2**448
                elif c == 1:
                    x = hi * 2**448 + (edge(r, 448) - partial(r, k, hi)) % 2**448
                elif c == 2:
                    x = r.getrandbits(r.choice([466, 466, 460, 912])) * q + r.choice([0, 1, -1, edge(r, 300), -edge(r, 300)])
                elif c == 3:  # the second fold is chosen
                    h2 = edge(r, 242)
                    y = h2 * 2**448 + (edge(r, 448) - r.choice([h2 * k, partial(r, k, h2)])) % 2**448
                    hi = min(y // k, 2**464 - 1)
                    if hi:
                        hi -= r.choice([0, 0, 1, r.randrange(hi)]) if y - hi * k < 2**400 else 0
                    x = hi * 2**448 + (y - hi * k) % 2**448
                else:
                    x = edge(r, 912)
                x %= 2**912
            b = x.to_bytes(114, "little")
        out += ["R", "M %d %s %s" % (fd, op, b.hex())]
    return out
