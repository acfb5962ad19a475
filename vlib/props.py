"""What each property's check runs."""
import re
from . import core, configs, gens as G, fieldgen as F
from .core import log, Broken
from .ref import E25519, E448, L25519, L448

MC = "model_checking"


def selftest(c):
    c.model("SelfTest", props="published known answers, facts about the curves, native integers against the text of BigMath")


def ladder(c):
    for k in c.n(["23", "29"], ["23", "29", "37", "61", "103"]):
        c.model("LadderToy", "LadderToy%s.cfg" % k, props="the ladder of RFC 7748 and the ladder schedule of the library against the group law, every peer and key")


def recode(c, kind):
    if kind == "comb":
        cfg = c.n(["Fold4", "Fold2"], ["Fold4", "Fold4b", "Fold2"])
    else:
        cfg = c.n(["Wnaf"], ["Wnaf", "Wnaf3", "Wnaf7"])
    for k in cfg:
        c.model("RecodeToy", "RecodeToy%s.cfg" % k, props="scalar recodings denote the scalar, digits stay in their range, tables are indexed inside")


def eddsa(c, fam):
    for k in c.n([fam], {"Ed25519": ["Ed25519", "Ed25519b", "Ed25519c"], "Ed448": ["Ed448", "Ed448b"]}[fam]):
        c.model("EdToy", "EdToy%s.cfg" % k, props="signing and verification equations over every key, nonce point and hash of a toy curve with cofactor", timeout=1500)


def streams(c, kind):
    for k in ("", "1"):
        c.model("HashStream", "HashStream%s%s.cfg" % (kind, k), props="streaming is independent of the pieces, contexts of each other")


def field(c, fd, opset):
    r = c.r
    n = c.n(120, 1200)
    return F.walks(r, fd, opset, n, 100) + F.walks(r, fd, opset, n // 2, 60, sets="40")


def c01(c, fd=255):
    for rep in "rtq":
        for k in c.n([rep], [rep, rep + "3"]):
            c.model("RadixBounds", "RadixBounds%d%s.cfg" % (fd, k), timeout=c.n(300, 3000),
                    props="no sequence of admissible operations of the vector representations overflows or borrows")
    lines = field(c, fd, "arith") + F.directed(c.r, fd, c.n(250, 4000)) + F.redextreme(c.r, fd, c.n(60, 800)) + F.critical(c.r, fd, c.n(40, 400)) + F.smallcarries(c.r, fd, c.n(60, 800))
    c.trace("walks of the register machine, products and sums next to folding boundaries, extreme digits (field %d)" % fd, lines)


def c02(c):
    c01(c, 448)


def c03(c):
    for fd in (255, 448):
        lines = field(c, fd, "repr") + F.boundary_encodings(c.r, fd, n=c.n(200, 3000))
        c.trace("encodings, comparisons, selections and conversions (field %d)" % fd, lines)


def c04(c):
    for fd in (255, 448):
        lines = F.roots(c.r, fd, c.n(250, 4000)) + F.walks(c.r, fd, "root", c.n(60, 500), 60)
        c.trace("inverses and square roots (field %d)" % fd, lines)


def c05(c):
    selftest(c)
    ladder(c)
    ladderstep(c, 255)
    lines = []
    for alg in ("x25519", "x25519_x64"):
        lines += G.dh_shared(c.r, alg, c.n(500, 8000))
    c.trace("shared secrets, boundary peers and keys", lines)


def formulas(c, *reps):
    for k in reps:
        c.model("PointFormulas", "PointFormulas%s.cfg" % k, timeout=600,
                props="the point formulas never overflow a digit and give carried coordinates; sums, doubles and images of every pair of points of a toy curve")


def ladderstep(c, fd):
    c.model("LadderFormula", "LadderFormula%d.cfg" % fd, timeout=600,
            props="a step of the vector ladder never overflows a digit and gives carried registers; it is the step of LadderToy for all registers")


def c06(c):
    selftest(c)
    ladder(c)
    recode(c, "comb")
    c.points(["255mix4way", "255add2w", "255dbl2w"], c.n(200, 4000))
    lines = []
    for alg in ("x25519", "x25519_x64"):
        lines += G.dh_keygen(c.r, alg, c.n(500, 8000))
        lines += G.dh_agree(c.r, alg, c.n(60, 600), "x25519_x64" if alg == "x25519" else "x25519")
    c.trace("public keys and exchanges", lines)


def c07(c):
    selftest(c)
    ladder(c)
    ladderstep(c, 448)
    c.trace("shared secrets, boundary peers and keys", G.dh_shared(c.r, "x448", c.n(500, 6000)))


def c08(c):
    selftest(c)
    ladder(c)
    c.points(["448mix4way", "448add2w"], c.n(200, 4000))
    c.trace("public keys and exchanges", G.dh_keygen(c.r, "x448", c.n(400, 5000)) + G.dh_agree(c.r, "x448", c.n(60, 500)))


def signing(c, family):
    lines = []
    for alg in family:
        lines += G.ed_sign(c.r, alg, c.n(90, 1000))
        lines += G.ed_keygen(c.r, alg, c.n(90, 1000))
        lines += G.ed_sign_only(c.r, alg, c.n(150, 2000))
        lines += G.ed_sign_long(c.r, alg, [1000, 4096 + c.r.randrange(300), 65536 + c.r.randrange(300)] + c.n([], [20000, 65535, 65536, 65537, 131072]))
    return lines


def c09(c):
    selftest(c)
    recode(c, "comb")
    formulas(c, "255q", "255t")
    c.points(["255mix4way", "255add2way", "255add2w", "255dbl2w"], c.n(250, 4000))
    c.points(["255red64", "255calcs"], c.n(500, 8000))
    c.trace("key generation, signing, matching verification", signing(c, G.V25519))
    c.trace("reduction modulo the group order", G.reductions(c.r, c.n(1500, 20000)))
    c.long("messages of more than 2^32 bytes", G.long_sign(c.r, G.V25519))


def c11(c):
    selftest(c)
    recode(c, "comb")
    formulas(c, "448q", "448t")
    c.points(["448mix4way", "448add2w", "448dbl2w", "448iso2w"], c.n(250, 4000))
    c.points(["448modl", "448div4", "448calcs"], c.n(500, 8000))
    c.trace("key generation, signing, matching verification", signing(c, G.V448))
    c.long("messages of more than 2^32 bytes", G.long_sign(c.r, G.V448))


def verifying(c, family):
    lines = []
    for alg in family:
        first = alg == family[0]
        lines += G.ed_verify_random(c.r, alg, c.n(60, 800))
        lines += G.ed_verify_chosen(c.r, alg, c.n(200 if first else 60, 3000))
        lines += G.ed_verify_malformed(c.r, alg, c.n(25 if first else 8, 200))
        lines += G.bit_sweep(c.r, alg, c.n(5 if first else 19, 1))
    return lines


def c10(c):
    eddsa(c, "Ed25519")
    recode(c, "wnaf")
    formulas(c, "255q")
    c.points(["255mix4w", "255dbl4w"], c.n(400, 8000))
    c.trace("valid, altered and malformed signatures", verifying(c, G.V25519))
    c.long("messages of more than 2^32 bytes", G.long_verify(c.r, G.V25519[1:], False) + G.long_verify(c.r, G.V25519[:1], True))


def c12(c):
    eddsa(c, "Ed448")
    recode(c, "wnaf")
    formulas(c, "448q", "448t")
    c.points(["448mix4w", "448dbl4w", "448iso2w"], c.n(400, 8000))
    c.points(["448modl", "448div4"], c.n(300, 4000))
    c.trace("valid, altered and malformed signatures", verifying(c, G.V448))
    c.long("messages of more than 2^32 bytes", G.long_verify(c.r, G.V448[1:], False) + G.long_verify(c.r, G.V448[:1], True))


def c13(c):
    lines = G.domains(c.r, c.n(12, 100)) + G.contexts(c.r, c.n(16, 1))
    c.trace("every variant against every other, contexts of every length", lines)


def c14(c):
    r = c.r
    for k in c.n([53, 61], [53, 61, 101, 173]):
        c.model("MapToy", "MapToy%d.cfg" % k, props="the map in its straight line is Elligator 2 on every element of a toy field, cofactor before or after every sum")
    formulas(c, "255t")
    c.points(["255dbl2way", "255dbl1w", "255add1w"], c.n(600, 8000))
    lens = G.sha2_lens(r, c.n(160, 1500), 700)
    lines = G.h2c(r, lens) + G.m2c(r, c.n(300, 4000)) + G.points(r, c.n(150, 2000)) + G.h2c(r, [3000 + r.randrange(100)])
    c.trace("hash to field, map to curve, hash to curve, predicates", lines)
    c.long("long messages", G.long_field(r, "x", 32) + G.long_field(r, "a", 32))


def c15(c):
    selftest(c)
    streams(c, "Md")
    r = c.r
    lines = G.oneshot(r, [512, 384], G.sha2_lens(r, c.n(250, 2500)) + [5000, 8191, 8192, 65536 + r.randrange(200), 140000] + c.n([], [65535, 65536, 200000, 1 << 20]))
    lines += G.streams(r, [512, 384], c.n(120, 1500)) + G.splits(r, [512, 384], 420, c.n(60, 800))
    lines += G.bitlengths(r, [512, 384], [r.choice([0, 1, 110, 111, 112, 127, 128, r.randrange(300)]) for _ in range(c.n(60, 600))]) + G.compressions(r, c.n(20, 200))
    lines += G.twoway(r, G.sha2_lens(r, c.n(250, 2500)) + [4000, 4095, 4096, 4097])
    c.trace("one-shot, streamed and two-way digests", lines)
    c.long("messages of more than 2^32 bytes", G.long_hash(r, [512, 384], (0, (1 << 31) + 77)) + G.long_hash(r, [512], ((1 << 20) + 1,)) + G.long_two(r) + G.long_two(r, 29))


SHA3 = [3224, 3256, 3384, 3512, 128, 256]


def c16(c):
    selftest(c)
    streams(c, "Sponge")
    r = c.r
    lines = G.oneshot(r, SHA3, c.n([], list(range(0, 420))) + [b + d for b in (0, 72, 104, 136, 144, 168, 272, 336) for d in (-9, -8, -7, -1, 0, 1, 2, 7, 8) if b + d >= 0] + [r.randrange(1000) for _ in range(c.n(30, 300))] + [5000])
    lines += G.streams(r, SHA3, c.n(150, 2000)) + G.splits(r, SHA3, 500, c.n(30, 400))
    c.trace("one-shot and streamed digests, every output length class", lines)
    c.long("messages of more than 2^32 bytes", G.long_hash(r, SHA3) + G.long_hash(r, [256, 3512], ((1 << 31) + 77,)))


def c17(c):
    r = c.r
    walks = {fd: F.walks(r, fd, "all", c.n(40, 200), 60) for fd in (255, 448)}
    c.trace("histories that interleave every kind of call, at every placement, outputs on inputs", G.mixed(r, c.n(80, 600), walks))
    c.trace("every output on every input it may coincide with", G.aliased(r, c.n(2, 12)))
    # 8 threads: spread over mixed histories, then side by side in the same calls
    c.trace("threads in different calls", G.mixed(r, c.n(24, 80), {fd: w[:len(w) // 4] for fd, w in walks.items()}), threads=8)
    c.trace("threads in the same calls", G.same_kind(r, c.n(8, 40)), threads=-8)
    for fd in (255, 448):
        c.trace("threads in the same field operations (field %d)" % fd, F.walks(r, fd, "all", c.n(16, 60), 80), threads=-8)
    short = {fd: w[:max(4, len(w) // 8)] for fd, w in walks.items()}
    c.watched("every access inside an object", "address", [(0, G.same_kind(r, c.n(4, 20)) + G.mixed(r, c.n(30, 200), short))])
    c.watched("no access conflicts with another thread's", "thread", [(-8, G.same_kind(r, c.n(2, 8))), (8, G.mixed(r, c.n(8, 40), short))])


def c18(c):
    """one script on every build; every trace must be a behaviour"""
    r = c.r
    lines = []
    for fd in (255, 448):
        lines += F.walks(r, fd, "all", c.n(60, 300), 80) + F.directed(r, fd, c.n(40, 300)) + F.redextreme(r, fd, c.n(12, 60)) + F.smallcarries(r, fd, c.n(40, 300)) + F.critical(r, fd, c.n(10, 60)) + F.boundary_encodings(r, fd, n=c.n(20, 200)) + F.roots(r, fd, c.n(20, 200))
    lines += G.same_kind(r, c.n(24, 120)) + G.domains(r, 2) + G.contexts(r, 64)
    for alg in G.V25519 + G.V448:
        lines += G.ed_verify_malformed(r, alg, 3)
    lines += G.streams(r, SHA3 + [512, 384], c.n(40, 300)) + G.oneshot(r, SHA3, [0, 71, 72, 103, 104, 135, 136, 143, 144, 167, 168, 400])
    conf = configs.quick() if c.quick else configs.thorough()
    c.trace("gcc -O3 native", lines)
    c.configurations(lines, conf)


def c19(c):
    for k in "ABCD":
        c.model("RandModel", "RandModel%s.cfg" % k, props="returned means filled, each delivered byte once and in order; every request ends unless interrupted for ever")
    out = c.model("RandGen", env={"DEPTH": str(c.n(3, 4))}, props="enumeration of source behaviours")
    scripts = []
    for m in re.finditer(r'<<"SCRIPT",\s*<<(.*?)>>\s*>>', out, re.S):
        scripts.append("".join(re.findall(r'"(.)"', m.group(1))))
    if len(scripts) < 100:
        raise Broken("RandGen enumerated %d scripts" % len(scripts))
    scripts = sorted(set(scripts))
    lines = G.random_faults(c.r, scripts, c.n(400, 5000))
    c.trace("requests under every behaviour of the source", lines)


def c21(c):
    r = c.r
    calls = G.byte_pool(r, c.n(6, 30))
    calls["h2c lengths"] = [b for n in (0, 110, 111, 112, 127, 128, 239, 1000) for b in G.bodies(G.h2c(r, [n]))]
    # every kind of call with memory looked at right after it
    calls = {k: [hh + ["O keep"] for hh in v] for k, v in calls.items()}
    lines = G.objects(r, c.n(60, 600), calls)
    for k in sorted(calls):
        lines += ["R"] + [l for hh in calls[k] for l in hh if not l.startswith("B") or l.split()[2] not in ("hi", "hu", "hf", "hb", "hc")]
    c.trace("sizes, allocations, releases, with other calls in between", lines)
    c.trace("printed keys, signatures and points", G.prints(r, c.n(20, 200)))
    for fd in (255, 448):
        c.trace("printed elements (field %d)" % fd, F.printing(r, fd, F.walks(r, fd, "repr", c.n(30, 300), 60)))
    c.watched("every access inside an object", "address", [(0, G.objects(r, c.n(20, 100), calls) + G.prints(r, 2))])


def c22(c):
    out = c.model("CapGen", props="every processor, as sets of extensions and highest leaves; what a report has to say; counting extensions does not decide support")
    cpus = ["K " + " ".join(re.findall(r"\d+", m)) for m in re.findall(r'<<"CPU",([\d,\s]+)>>', out)]
    if len(set(cpus)) < 16384:
        raise Broken("CapGen enumerated %d processors" % len(set(cpus)))
    exe = core.build_caps()
    lines = []
    for k in range(0, len(cpus), 64):
        lines += ["R"] + cpus[k:k + 64]
    # bits set at random around the ones that matter
    for k in range(c.n(40, 400)):
        lines += ["R"] + ["K %d %d %d %d %d" % ((c.r.choice([1, 4, 6, 7, 8, 13, 31, 36]),) + tuple(c.r.getrandbits(32) for _ in range(4))) for _ in range(50)]
    c.trace("reports on every processor", lines, exe)


def c23(c):
    lines = []
    for alg in ("x25519", "x25519_x64", "x448"):
        lines += G.dh_keygen(c.r, alg, c.n(60, 600)) + G.dh_shared(c.r, alg, c.n(60, 600)) + G.dh_agree(c.r, alg, c.n(10, 100))
    lines = [re.sub(r"^(B \S+) (kg|dh) ", r"\1 \2l ", l) for l in lines]
    c.trace("calls and what they leave in memory", lines)
    other = [("gcc", "-O0"), ("gcc", "-O2"), ("clang", "-O3")] + ([("gcc", "-O1"), ("gcc", "-Os"), ("clang", "-O0"), ("clang", "-O1"), ("clang", "-Os")] if (c.tier == "thorough") else [])
    for cc, o in other:
        exe = core.build("left-%s%s" % (cc, o), cc, [o] + core.RELEASE[1:], optional=True)
        if exe:
            c.trace("the same, %s %s" % (cc, o), lines if (c.tier == "thorough") else lines[:1] + lines[1::4], exe)


CT = ["-march=haswell", "-madx", "-DNDEBUG"]   # valgrind has no AVX-512


def c20(c):
    r = c.r
    confs = [("gcc -O3", ("gcc", ["-O3"] + CT, None))]
    if not c.quick:
        for cc in ("gcc", "clang"):
            for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
                confs.append(("%s %s" % (cc, o), (cc, [o] + CT, None)))
        confs.append(("gcc -O3 no bmi2", ("gcc", ["-O3"] + configs.NOBMI2, None)))
        for m in ("LOGIC", "CMOV"):
            confs.append(("gcc -O3 swap " + m, ("gcc", ["-O3"] + CT, configs.SWAP[m])))
        confs.append(("gcc -O3 table LUT_12KB", ("gcc", ["-O3"] + CT, configs.LUT["LUT_12KB"])))
    for name, conf in confs:
        c.noninterference(name, G.ct_runs(r, c.n(16, 60)), conf)


PROPS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10,
             C11=c11, C12=c12, C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23)

ASSUMPTIONS = {"*": ["gcc/clang and the processor execute the compiled library as the trace records",
                     "TLC and the arbitrary-precision integer module (java/) evaluate the specification correctly; the known-answer module SelfTest checks both",
                     "values outside the explored inputs follow the same specification only by sampling"]}
