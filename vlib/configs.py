"""Build configurations of the library."""
NATIVE = ["-march=native", "-mtune=native", "-DNDEBUG"]
HASWELL = ["-march=haswell", "-DNDEBUG"]
PLAIN = ["-DNDEBUG"]                      # -mavx2 -mbmi2 of the build files only
NOBMI2 = ["-mno-bmi2", "-mno-adx", "-DNDEBUG"]
ADX = ["-madx", "-DNDEBUG"]

SWAP = {m: {"include/faz_ecdh_avx2.h": [(r"#define SWAP_METHOD\s+\w+", "#define SWAP_METHOD " + m)]} for m in ("PERMUTATION", "LOGIC", "CMOV")}
PROC = {m: {"include/simd_avx2.h": [(r"#define PROCESSOR\s+\w+", "#define PROCESSOR " + m)]} for m in ("SKYLAKE", "HASWELL")}
LUT = {m: {"include/edwards255.h": [(r"#define LOOKUP_TABLE_SIZE\s+\w+", "#define LOOKUP_TABLE_SIZE " + m)]} for m in ("LUT_12KB", "LUT_24KB")}


def merge(*es):
    out = {}
    for e in es:
        for f, s in e.items():
            out[f] = out.get(f, []) + s
    return out


def quick():
    """name -> (compiler, flags, header edits)"""
    c = {}
    for o in ("-O0", "-O1", "-O2", "-Os"):
        c["gcc %s native" % o] = ("gcc", [o] + NATIVE, None)
        c["clang %s native" % o] = ("clang", [o] + NATIVE, None)
    c["clang -O3 native"] = ("clang", ["-O3"] + NATIVE, None)
    for cc in ("gcc", "clang"):
        c[cc + " -O3 haswell"] = (cc, ["-O3"] + HASWELL, None)
        c[cc + " -O2 avx2 bmi2"] = (cc, ["-O2"] + PLAIN, None)
        c[cc + " -O3 no bmi2"] = (cc, ["-O3"] + NOBMI2, None)
        c[cc + " -O1 adx"] = (cc, ["-O1"] + ADX, None)
        c[cc + " debug"] = (cc, ["-O0", "-g"], None)
        for m in ("LOGIC", "CMOV"):
            c["%s -O3 native swap %s" % (cc, m)] = (cc, ["-O3"] + NATIVE, SWAP[m])
        c[cc + " -O3 native processor HASWELL"] = (cc, ["-O3"] + NATIVE, PROC["HASWELL"])
        c[cc + " -O3 native table LUT_12KB"] = (cc, ["-O3"] + NATIVE, LUT["LUT_12KB"])
    watch = ["-O1", "-fsanitize=address"]
    c["gcc watched no bmi2 swap LOGIC"] = ("gcc", watch + NOBMI2, SWAP["LOGIC"])
    c["gcc watched native swap LOGIC"] = ("gcc", watch + NATIVE, SWAP["LOGIC"])
    c["gcc watched native swap CMOV table LUT_12KB"] = ("gcc", watch + NATIVE, merge(SWAP["CMOV"], LUT["LUT_12KB"]))
    c["gcc -O3 lto strict"] = ("gcc", ["-O3", "-fno-semantic-interposition", "-funroll-loops", "-fipa-pta"] + NATIVE, None)
    return c


def thorough():
    c = dict(quick())
    for cc in ("gcc", "clang"):
        for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
            for an, a in (("native", NATIVE), ("haswell", HASWELL), ("avx2 bmi2", PLAIN), ("no bmi2", NOBMI2), ("adx", ADX)):
                c["%s %s %s" % (cc, o, an)] = (cc, [o] + a, None)
                for m in ("LOGIC", "CMOV"):
                    c["%s %s %s swap %s" % (cc, o, an, m)] = (cc, [o] + a, SWAP[m])
                c["%s %s %s processor HASWELL" % (cc, o, an)] = (cc, [o] + a, PROC["HASWELL"])
                c["%s %s %s table LUT_12KB swap LOGIC" % (cc, o, an)] = (cc, [o] + a, merge(LUT["LUT_12KB"], SWAP["LOGIC"]))
    c.pop("gcc -O3 native", None)
    return c
