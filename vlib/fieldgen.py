"""Scripts of field commands: walks generated by the specification (FieldGen)
and directed operands that reach rare carries."""
import re
from . import core
from .ref import P25519, P448

REPS = ["f", "g", "w", "v", "r", "t", "q"]
LANES = dict(f=1, g=2, w=1, v=2, r=1, t=2, q=4)
A24 = {255: 121666, 448: 39082}


def prime(fd):
    return P25519 if fd == 255 else P448


def ndig(fd, rep):
    if rep in "fg":
        return 4 if fd == 255 else 7
    if rep in "wv":
        return 8 if fd == 255 else 14
    return 10 if fd == 255 else 16


def widths(fd, rep):
    if rep in "fgwv":
        return [64] * ndig(fd, rep)
    return [26, 25] * 5 if fd == 255 else [28] * 16


def digits(fd, rep, v):
    out = []
    for w in widths(fd, rep):
        out.append(v & ((1 << w) - 1))
        v >>= w
    return out


def total(fd, rep):
    return sum(widths(fd, rep))


def patterned(r, fd, rep):
    """digits from a small alphabet of carry-prone values"""
    out = []
    style = r.randrange(4)
    for w in widths(fd, rep):
        m = (1 << w) - 1
        if style == 0:
            d = r.choice([0, m])
        elif style == 1:
            d = r.choice([m, m, m - 1, m - r.randrange(20)])
        elif style == 2:
            d = r.choice([0, 1, m, m - 1, 1 << (w - 1), (1 << (w - 1)) - 1, r.randrange(m + 1)])
        else:
            d = r.randrange(m + 1)
        out.append(d)
    return out


def special(r, fd, rep):
    """values around the modulus and the word boundaries"""
    p, t = prime(fd), total(fd, rep)
    top = 1 << t
    c = r.randrange(10)
    k = r.choice([0, 1, 2, 3, 18, 19, 20, 37, 38, 39, r.randrange(100)])
    if c == 0:
        v = k
    elif c == 1:
        v = p + r.choice([k, -k])
    elif c == 2:
        v = 2 * p + r.choice([k, -k])
    elif c == 3:
        v = top - 1 - k
    elif c == 4:
        v = (1 << r.randrange(t)) + r.choice([k, -k, 0, -1])
    elif c == 5:
        v = p - (1 << r.randrange(t)) + r.choice([0, k, -k])
    elif c == 6:
        v = (1 << 255) + r.choice([k, -k, -19, -20]) if fd == 255 else (1 << 448) - (1 << 224) + r.choice([k, -k, -1, -2])
    elif c == 7:
        v = p // 2 + r.choice([0, 1, -1])
    elif c == 8:  # a run of ones
        a, b = sorted([r.randrange(t), r.randrange(t + 1)])
        v = (1 << b) - (1 << a)
    else:
        v = (p + k) << r.randrange(max(1, t - p.bit_length() + 1))
    return digits(fd, rep, v % top)


def anydigits(r, fd, rep):
    c = r.randrange(10)
    if c < 4:
        return special(r, fd, rep)
    if c < 8:
        return patterned(r, fd, rep)
    return digits(fd, rep, r.getrandbits(total(fd, rep)))


def setline(fd, rep, reg, lanes):
    h = "".join(d.to_bytes(8, "little").hex() for l in lanes for d in l)
    return "F %d %s set %d 0 0 0 0 %s" % (fd, rep, reg, h)


def randset(r, fd, rep, reg):
    return setline(fd, rep, reg, [anydigits(r, fd, rep) for _ in range(LANES[rep])])


def randbytes_elt(r, fd):
    n = 32 if fd == 255 else 56
    v = 0
    ds = special(r, fd, "f") if r.random() < .6 else [r.getrandbits(64) for _ in range(ndig(fd, "f"))]
    for i, d in enumerate(ds):
        v |= d << (64 * i)
    return v.to_bytes(n, "little")


GEN = re.compile(r'<<"GEN", "(\w*)", "(\w+)", (\d+), (\d+), (\d+), (\d+), (\d+)>>')


def walks(r, fd, opset, num, depth, sets="25"):
    """command sequences generated by TLC from FieldGen"""
    out = core.tlc("FieldGen", args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(r.randrange(1 << 30))],
                   env={"FD": str(fd), "SETS": sets, "OPSET": opset}, workers=1, timeout=300, mem="2g")
    lines = []
    for m in GEN.finditer(out):
        rep, op, c, d, a, b, bit = m.groups()
        if op == "R":
            lines.append("R")
            for rp in REPS:
                for k in range(4):
                    lines.append(randset(r, fd, rp, k))
            continue
        if op == "set":
            lines.append(randset(r, fd, rep, int(c)))
            continue
        l = "F %d %s %s %s %s %s %s %s" % (fd, rep, op, c, d, a, b, bit)
        if op == "unser":
            l += " " + b"".join(randbytes_elt(r, fd) for _ in range(LANES[rep])).hex()
        lines.append(l)
    if not lines:
        raise core.Broken("FieldGen produced nothing:\n" + out[-2000:])
    return lines


def inv(a, m):
    return pow(a, -1, m)


def near(r, fd):
    """small residues and residues around 2^224 (the folding point of the 448 field)"""
    k = r.choice([r.randrange(40), r.randrange(2000), r.randrange(1 << 16)])
    if fd == 448 and r.random() < .6:
        return r.choice([1, -1]) * (r.choice([1 << 224, (1 << 224) - 1, 1 << 223, (1 << 447) + (1 << 223), 1 << 192, 1 << 448 - 64]) + r.choice([k, -k]))
    return r.choice([k, -k, k])


def sqrtm(a, p):
    a %= p
    if p % 4 == 3:
        x = pow(a, (p + 1) // 4, p)
    else:
        x = pow(a, (p + 3) // 8, p)
        if x * x % p != a:
            x = x * pow(2, (p - 1) // 4, p) % p
    return x if x * x % p == a else None


def directed(r, fd, n):
    """products, squares, sums and reductions whose exact value lies next to a multiple of the folding modulus"""
    p = prime(fd)
    N = 256 if fd == 255 else 448
    M = 2 * p if fd == 255 else p
    top = 1 << N
    lines = []
    for i in range(n):
        lines.append("R")
        # product congruent to a tiny residue
        a = (r.getrandbits(N) if r.random() < .5 else top - 1 - r.getrandbits(r.choice([8, 64, 128, 200]))) | 1
        while True:
            try:
                ia = inv(a, M)
                break
            except ValueError:
                a += 2
        b = near(r, fd) * ia % M
        L = [digits(fd, "f", a), digits(fd, "f", b)]
        lines += [setline(fd, "f", 0, [L[0]]), setline(fd, "f", 1, [L[1]]),
                  "F %d f mul 2 0 0 1 0" % fd, "F %d f intmul 2 0 0 1 0" % fd, "F %d f reduce 3 0 2 0 0" % fd,
                  "F %d f ser 0 0 2 0 0" % fd]
        if fd == 255 or True:
            lines += [setline(fd, "g", 0, [L[0], L[1]]), setline(fd, "g", 1, [L[1], L[0]]),
                      "F %d f intmul2 0 0 0 1 0" % fd, "F %d f reduce2 2 0 0 0 0" % fd]
        # squares
        x = None
        while x is None:
            t = near(r, fd) % p
            x = sqrtm(t, p)
        x = r.choice([x, p - x])
        if fd == 255 and r.random() < .5:
            x += p
        d = digits(fd, "f", x)
        lines += [setline(fd, "f", 0, [d]), "F %d f intsqr 0 0 0 0 0" % fd, "F %d f sqr 0 0 0 0 0" % fd,
                  setline(fd, "g", 0, [d, L[0]]), "F %d f intsqr2 1 0 0 0 0" % fd, "F %d f reduce2 0 0 1 0 0" % fd]
        # small-constant multiple
        k = near(r, fd)
        x = (k * inv(A24[fd], p)) % p
        if fd == 255 and r.random() < .5 and x + p < top:
            x += p
        lines += [setline(fd, "f", 3, [digits(fd, "f", x)]), "F %d f mula24 4 0 3 0 0" % fd,
                  # (in place)
                  "F %d f mula24 3 0 3 0 0" % fd]
        # sums and differences next to the word size and the modulus
        a = r.getrandbits(N) if r.random() < .6 else top - 1 - r.randrange(100)
        base = r.choice([top, p, 2 * p, top - 1, 2 * top - 38 if fd == 255 else 2 * top - (1 << 224)])
        b = (base + r.choice([1, -1]) * r.choice([0, 1, r.randrange(40), r.randrange(80)]) - a) % top
        lines += [setline(fd, "f", 0, [digits(fd, "f", a)]), setline(fd, "f", 1, [digits(fd, "f", b)]),
                  "F %d f add 2 0 0 1 0" % fd, "F %d f add 0 0 0 1 0" % fd]
        a = r.getrandbits(N) if r.random() < .6 else r.randrange(100)
        b = (a + r.choice([0, 1, -1, 38, -38, 37, p, 2 * p, -p, 1 << 224, r.randrange(100), -r.randrange(100)])) % top
        lines += [setline(fd, "f", 0, [digits(fd, "f", a)]), setline(fd, "f", 1, [digits(fd, "f", b)]),
                  "F %d f sub 2 0 0 1 0" % fd, "F %d f sub 1 0 0 1 0" % fd, "F %d f neg 1 0 0 0 0" % fd]
        # reductions with a chosen intermediate sum
        W = 2 * N
        lanes = []
        for _ in range(2):
            hi = r.getrandbits(N) if r.random() < .5 else int.from_bytes(b"".join(x.to_bytes(8, "little") for x in patterned(r, fd, "f")), "little")
            if fd == 255:
                tgt = r.choice([top, top * r.randrange(1, 39), p, 2 * p, top * r.randrange(1, 39) - 38 * r.randrange(40)]) + r.choice([1, -1]) * r.choice([0, 1, r.randrange(40), r.randrange(2000), 1 << 64, 1 << 128, 1 << 192])
                lo = (tgt - 38 * hi) % top
            else:
                h0, h1 = hi & ((1 << 224) - 1), hi >> 224
                s = hi + h1 + ((h0 + h1) << 224)
                tgt = r.choice([top * r.randrange(1, 4), p, 2 * p, 3 * p, top * r.randrange(1, 4) - (1 << 224) * r.randrange(4)]) + r.choice([1, -1]) * r.choice([0, 1, 2, r.randrange(10), 1 << 224, 1 << 64, 1 << 128, 1 << 192, 1 << 256])
                lo = (tgt - s) % top
            lanes.append(digits(fd, "w", hi << N | lo))
        lines += [setline(fd, "w", 0, [lanes[0]]), "F %d f reduce 0 0 0 0 0" % fd,
                  setline(fd, "v", 0, lanes), "F %d f reduce2 0 0 0 0 0" % fd]
    return lines


def edgeword(r, c):
    """a word whose multiple by the small constant c ends right below 2^64, or is itself extreme"""
    k = r.randrange(8)
    return ((r.randrange(1, c) << 64) // c - r.choice([0, 0, 0, 1]) if k < 5 else M64 if k == 5 else r.getrandbits(64) if k == 6 else r.choice([0, M64, 1 << 63]))


M64, M448 = (1 << 64) - 1, (1 << 448) - 1


def smallcarries(r, fd, n):
    """multiplications by a small constant, word by word: a carry out of the sum of the high half of one product and
    the low half of the next has probability 2^-48 or less"""
    p, c = prime(fd), A24[fd]
    N = 256 if fd == 255 else 448
    nw = N // 64
    lines = []

    def num(k):
        return sum(edgeword(r, k) << 64 * i for i in range(nw))
    def word():
        k = r.randrange(8)
        return (M64 - r.choice([0, 0, 1]) if k < 3 else (1 << 63) + r.choice([0, -1, 1]) if k < 5 else r.choice([0, 1, 2]) if k == 5 else
                (r.choice([1, -1]) << r.randrange(64)) & M64 if k == 6 else r.getrandbits(64))
    for _ in range(n):
        lines.append("R")
        # words that leave a product, or its double, next to the end of a word
        for _ in range(4):
            a, b = [word() for _ in range(nw)], [word() for _ in range(nw)]
            lines += [setline(fd, "f", 0, [a]), setline(fd, "f", 1, [b]), "F %d f intsqr 0 0 0 0 0" % fd, "F %d f intmul 1 0 0 1 0" % fd,
                      setline(fd, "g", 0, [a, b]), setline(fd, "g", 1, [b, a]), "F %d f intsqr2 0 0 0 0 0" % fd, "F %d f intmul2 1 0 0 1 0" % fd]
        for _ in range(3):
            lines += [setline(fd, "f", 0, [digits(fd, "f", num(c))]), "F %d f mula24 1 0 0 0 0" % fd]
        if fd == 255:
            def wide():
                hi = num(38)
                lo = r.choice([num(38), r.getrandbits(256), (r.randrange(39) * 2**256 - 38 * hi + r.choice([0, 1, -1, r.randrange(80)])) % 2**256])
                return digits(fd, "w", hi << 256 | lo)
            for _ in range(3):
                lines += [setline(fd, "w", 0, [wide()]), "F %d f reduce 0 0 0 0 0" % fd,
                          setline(fd, "v", 0, [wide(), wide()]), "F %d f reduce2 0 0 0 0 0" % fd]
        else:
            # the second folding carries through the words below 2^224
            for _ in range(2):
                while True:
                    h = r.randrange(2, c)
                    b = r.choice([64, 128, 192, 224])
                    v = (1 << 448) + (r.randrange(1, h << 224 - b) << b) - 1 - r.choice([0, 0, r.randrange(3)]) if h << 224 - b > 1 else 0
                    # v = c * x - h * p
                    m = (-(v + h * p)) % c
                    # move v by multiples of 2^b until c divides
                    k = (m // 2 * pow(1 << b - 1, -1, c // 2)) % (c // 2) if m % 2 == 0 else None
                    if k is None:
                        continue
                    v += k << b
                    x, rest = divmod(v + h * p, c)
                    if rest == 0 and x < 1 << 448 and v < (1 << 448) + (h << 224):
                        break
                lines += [setline(fd, "f", 0, [digits(fd, "f", x)]), "F %d f mula24 1 0 0 0 0" % fd]
            # sums that carry twice
            for _ in range(2):
                b = r.choice([0, 64, 128, 192, 224])
                t = max(0, r.choice([1 << b, (r.randrange(1 << 224) >> b << b), r.randrange(1 << 224), 1 << 192, 2 << 192]) - r.choice([1, 1, 1, 0, 2]))
                s = (1 << 449) - (1 << 224) - 1 + t
                if s <= 2 * M448:
                    a = M448 - r.choice([0, 2 * M448 - s, r.randrange(2 * M448 - s + 1)])
                    lines += [setline(fd, "f", 0, [digits(fd, "f", a)]), setline(fd, "f", 1, [digits(fd, "f", s - a)]), "F %d f add 2 0 0 1 0" % fd]
            # differences that borrow twice
            for _ in range(2):
                b = r.choice([0, 64, 128, 192, 224])
                d = max(1, r.choice([1, 1 << b, (r.randrange(1 << 224) >> b << b) + 1, r.randrange(1, (1 << 224) + 2)]) + r.choice([0, 0, 0, 1, -1]))
                a = r.choice([0, d - 1, r.randrange(d)])
                lines += [setline(fd, "f", 0, [digits(fd, "f", a)]), setline(fd, "f", 1, [digits(fd, "f", a - d + (1 << 448))]), "F %d f sub 2 0 0 1 0" % fd]
    return lines


def redextreme(r, fd, n):
    """largest admissible digits through every reduced-radix multiplication"""
    lines = []
    for i in range(n):
        for rep in "rtq":
            lines.append("R")

            def mx(slack):
                out = []
                for k, w in enumerate(widths(fd, rep)):
                    m = (1 << w) - 1
                    out.append(m if slack == 0 else max(0, m - r.randrange(slack)))
                return out
            ln = [mx(r.choice([0, 0, 1, 5])) if r.random() < .8 else patterned(r, fd, rep) for _ in range(LANES[rep])]
            ln2 = [mx(r.choice([0, 0, 1, 5])) if r.random() < .8 else patterned(r, fd, rep) for _ in range(LANES[rep])]
            lines += [setline(fd, rep, 0, ln), setline(fd, rep, 1, ln2),
                      "F %d %s mul 2 0 0 1 0" % (fd, rep), "F %d %s add 3 0 0 1 0" % (fd, rep),
                      "F %d %s add 4 0 0 0 0" % (fd, rep), "F %d %s sub 5 0 0 1 0" % (fd, rep)]
            lines += ["F %d %s mul 6 0 3 1 0" % (fd, rep), "F %d %s mul 6 0 0 4 0" % (fd, rep), "F %d %s mul 6 0 5 0 0" % (fd, rep),
                      "F %d %s intmul 7 0 4 1 0" % (fd, rep), "F %d %s compress 7 0 0 0 0" % (fd, rep),
                      "F %d %s intmul 7 0 0 1 0" % (fd, rep), "F %d %s compressfast 7 0 0 0 0" % (fd, rep), "F %d %s compress 7 0 0 0 0" % (fd, rep)]
            if rep == "q":
                lines += ["F %d q add 6 0 0 1 0" % fd, "F %d q sub 7 0 1 0 0" % fd, "F %d q new_compressfast2 0 0 7 6 0" % fd,
                          "F %d q copy 6 0 4 0 0" % fd, "F %d q copy 7 0 5 0 0" % fd, "F %d q new_compressfast2 0 0 6 7 0" % fd]
            if fd == 255:
                lines += ["F %d %s mul 6 0 3 4 0" % (fd, rep), "F %d %s mul 6 0 5 5 0" % (fd, rep), "F %d %s mul 6 0 4 4 0" % (fd, rep),
                          "F %d %s copy 7 0 4 0 0" % (fd, rep), "F %d %s sqr 7 0 0 0 0" % (fd, rep)]
            lines += ["F %d %s copy 7 0 0 0 0" % (fd, rep), "F %d %s sqr 7 0 0 0 0" % (fd, rep),
                      "F %d %s compressfast 5 0 0 0 0" % (fd, rep), "F %d %s sub 6 0 5 0 0" % (fd, rep),
                      "F %d %s compress 3 0 0 0 0" % (fd, rep), "F %d %s sub 6 0 1 3 0" % (fd, rep),
                      "F %d %s compress 6 0 0 0 0" % (fd, rep), "F %d %s mul 6 0 6 3 0" % (fd, rep),
                      "F %d %s ser 0 0 6 0 0" % (fd, rep)]
    return lines


def critical(r, fd, n):
    """the sequences in which RadixBounds comes closest to its limits: the largest admissible digits through a
    difference and a product, then the wide addition and subtraction"""
    lines = []
    for i in range(n):
        rep = "q"

        def reg(k):
            # lanes all zero, all digits full, or both mixed in one element
            out = []
            for _ in range(LANES[rep]):
                style = r.randrange(8)
                out.append([0 if style == 0 or (style > 6 and r.random() < .2) else (1 << w) - 1 - (r.randrange(3) if style == 1 else 0) for w in widths(fd, rep)])
            return setline(fd, rep, k, out)

        def zero(k):
            return setline(fd, rep, k, [[r.choice([0, 0, 0, 1]) for w in widths(fd, rep)] for _ in range(LANES[rep])])
        lines += ["R", zero(0), reg(1), reg(4), zero(5) if i % 2 else reg(5)]
        lines += ["F %d q addsub 2 3 1 0 0" % fd] if i % 3 == 2 else ["F %d q addsub 3 2 1 0 0" % fd]
        # (3 now holds a sum or a difference, both of level 1)
        lines += ["F %d q intmul 6 0 3 4 0" % fd, "F %d q intmul 7 0 5 1 0" % fd, "F %d q copy 2 0 6 0 0" % fd,
                  "F %d q addsublar 0 0 7 6 0" % fd, "F %d q compress2 0 0 7 6 0" % fd,
                  "F %d q mul 3 0 7 6 0" % fd, "F %d q compress 2 0 0 0 0" % fd,
                  "F %d q ser 0 0 6 0 0" % fd, "F %d q ser 0 0 3 0 0" % fd, "F %d q cmp 0 0 2 6 0" % fd]
    return lines


def boundary_encodings(r, fd, reps="frtq", n=40):
    """canonical encoding, comparison, sign and inversion around multiples of the modulus"""
    p = prime(fd)
    lines = []
    for rep in reps:
        top = 1 << total(fd, rep)
        vals = [v % top for v in list(range(0, 4)) + [p + k for k in range(-3, 4)] + [2 * p + k for k in range(-3, 4)] +
                [top - 1 - k for k in range(4)] + [1 << 255, (1 << 255) - 19, 18, 19, 20, 37, 38, 39, top - 38, top - 37, top - 39, top - 20, top - 19, top - 18]]
        if fd == 448:
            vals += [p + (1 << 224) + k for k in (-2, -1, 0)] + [(1 << 224) + k for k in (-1, 0, 1)] + [(1 << 448) - (1 << 224), p - (1 << 64), (1 << 448) - (1 << 64), (1 << 448) - 1, (1 << 224) - 1]
        for _ in range(n):
            v = 0
            for k, (d, w) in enumerate(zip(anydigits(r, fd, rep), widths(fd, rep))):
                v += d << sum(widths(fd, rep)[:k])
            vals.append(v)
        vals = [v % top for v in vals]
        r.shuffle(vals)
        i, ln = 0, LANES[rep]
        while i < len(vals):
            a = [vals[(i + k) % len(vals)] for k in range(ln)]
            # the same residue in another form, or a neighbour
            b = []
            for x in a:
                c = r.randrange(6)
                y = x if c == 0 else x + p if c == 1 else x - p if c == 2 else x ^ (1 << r.randrange(total(fd, rep))) if c == 3 else x + r.choice([1, -1]) if c == 4 else r.choice(vals)
                if not 0 <= y < top:
                    y = x
                b.append(y)
            lines += ["R", setline(fd, rep, 0, [digits(fd, rep, x) for x in a]), setline(fd, rep, 1, [digits(fd, rep, x) for x in b]),
                      "F %d %s ser 0 0 0 0 0" % (fd, rep), "F %d %s cmp 0 0 0 1 0" % (fd, rep), "F %d %s cmp 0 0 0 0 0" % (fd, rep)]
            if not (fd == 448 and rep != "f") and rep != "q":
                lines += ["F %d %s sgn 0 0 0 0 0" % (fd, rep)]
                for bit in ((0, 1) if rep != "t" else (0, 1, 2, 3)):
                    c = r.choice([2, 0, 1])
                    lines += ["F %d %s cmv %d 0 0 1 %d" % (fd, rep, c, bit)] if c == 2 else []
            h = b"".join((x % (1 << (8 * (32 if fd == 255 else 56)))).to_bytes(32 if fd == 255 else 56, "little") for x in a).hex()
            lines += ["F %d %s unser 3 0 0 0 0 %s" % (fd, rep, h), "F %d %s ser 0 0 3 0 0" % (fd, rep), "F %d %s copy 4 0 3 0 0" % (fd, rep)]
            if rep == "t":
                lines += ["F %d t deinter 0 1 0 0 0" % fd, "F %d t inter 5 0 0 1 0" % fd, "F %d t inter 6 0 1 0 0" % fd, "F %d t cmp 0 0 0 6 0" % fd]
            i += ln
        if rep in "fr":
            lines += ["R", "F %d %s prime 0 0 0 0 0" % (fd, rep), "F %d %s ser 0 0 0 0 0" % (fd, rep)]
        lines += ["F %d %s zero 0 0 0 0 0" % (fd, rep)]
    return lines


def roots(r, fd, n):
    p = prime(fd)
    lines = []
    for rep in "frq":
        if fd == 448 and rep == "q":
            continue
        top = 1 << total(fd, rep)
        special_vals = [0, 1, 2, p - 1, p - 2, p, p + 1, p + 2, 4, pow(2, (p - 1) // 4, p), p - 4, top - 1, (p + 1) // 2, (p - 1) // 2, 3, 5, 9, 1 << 200, 486662, 486664]
        for i in range(n):
            lines.append("R")

            def val():
                c = r.random()
                if c < .35:
                    return r.choice(special_vals) % top
                v = r.randrange(p)
                return v * v % p if c < .7 else v
            a = [val() for _ in range(LANES[rep])]
            u = []
            for x in a:
                y = val()
                if r.random() < .6 and x % p:
                    z = r.randrange(1, p)
                    y = z * z * x % p      # makes the ratio y/x a square
                u.append(y)
            lines += [setline(fd, rep, 0, [digits(fd, rep, x) for x in a]), setline(fd, rep, 1, [digits(fd, rep, x) for x in u])]
            if rep != "q":
                lines += ["F %d %s inv 2 0 0 0 0" % (fd, rep)]
                if i % 3 == 0:
                    lines += ["F %d %s inv 0 0 0 0 0" % (fd, rep), "F %d %s inv 0 0 0 0 0" % (fd, rep)]
            if not (fd == 448 and rep == "f"):
                lines += ["F %d %s srt 1 0 0 0 0" % (fd, rep)]
                if i % 4 == 0:
                    lines += ["F %d %s srt 0 0 0 0 0" % (fd, rep)]
    return lines


def printing(r, fd, walks):
    """walks in which elements are printed where they could be serialized"""
    out = []
    for l in walks:
        out.append(l)
        w = l.split()
        if len(w) > 3 and w[0] == "F" and w[3] in ("ser", "cmp", "sgn"):
            out.append(" ".join(w[:3] + ["print"] + w[4:9]))
    return out
