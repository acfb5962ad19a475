"""Building the library from /repo, recording traces, validating them with TLC."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
WORK = tempfile.mkdtemp(prefix="verif.")
atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
# what the memory of a fresh object holds is not the library's business;
# sanitizers leave the signals to the driver
CALLENV = {"MALLOC_PERTURB_": "90",
           "ASAN_OPTIONS": "handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_abort=0:detect_leaks=0:detect_stack_use_after_return=0:exitcode=66",
           "TSAN_OPTIONS": "handle_segv=0:handle_sigbus=0:handle_sigill=0:handle_abort=0:exitcode=66:halt_on_error=1"}
ROUNDS = 5   # times every thread runs the script
NCPU = os.cpu_count() or 4

SOURCES = ["src/target.c", "third_party/prng.c", "third_party/sha512.c",
           "third_party/sha3.c", "third_party/sha512_2way.c"]
WRAPS = ("open open64 openat read __read_chk close fopen fopen64 fread fclose feof ferror setvbuf getrandom "
         "getentropy abort exit _exit _Exit quick_exit raise puts printf perror sleep usleep nanosleep "
         "malloc calloc realloc free posix_memalign aligned_alloc memalign").split()
BASEFLAGS = "-std=c99 -fPIC -m64 -mavx2 -mbmi2".split()
RELEASE = ["-O3", "-DNDEBUG", "-march=native", "-mtune=native"]


class Broken(Exception):
    """the library does not build or the driver cannot run: reported as such"""


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def tree(d, edits):
    """the sources to build: /repo, or a scratch copy with other header switches"""
    if not edits:
        return REPO
    src = os.path.join(d, "tree")
    for sub in ("src", "include", "third_party"):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(src, sub))
    for f, subs in edits.items():
        p = os.path.join(src, f)
        t = open(p).read()
        for rx, rep in subs:
            t, n = re.subn(rx, rep, t)
            if n == 0:
                return None
        open(p, "w").write(t)
    return src


POINTS = ["255mix4way", "255mix4w", "255dbl4w", "255add2w", "255dbl2w", "255add2way", "255dbl2way", "255add1w",
          "255dbl1w", "448mix4way", "448mix4w", "448dbl4w", "448add2w", "448dbl2w", "448iso2w",
          "255red64", "255calcs", "448modl", "448div4", "448calcs"]


def point_ops():
    """the point formulas that are there under their names"""
    def ok(names):
        return sh(["gcc"] + BASEFLAGS + RELEASE + ["-I", REPO + "/include", "-I", REPO + "/third_party", "-fsyntax-only",
                   "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion"] +
                  ["-DNO_" + n for n in POINTS if n not in names] +
                  ["-include", REPO + "/src/target.c", VERIF + "/harness/points.c"]).returncode == 0
    if ok(POINTS):
        return list(POINTS)
    with ThreadPoolExecutor(NCPU) as ex:
        return [n for n, g in zip(POINTS, ex.map(lambda n: ok([n]), POINTS)) if g]


def build(name="rel", cc="gcc", flags=None, edits=None, driver_flags=(), optional=False, points=None):
    """Compile the library sources of the working tree and link the driver.
    edits: {file: [(regex, replacement)]} applied to a scratch copy (header switches)."""
    flags = RELEASE if flags is None else flags
    d = os.path.join(WORK, "build-" + name)
    os.makedirs(d, exist_ok=True)
    src = tree(d, edits)
    if src is None:
        return None
    inc = ["-I", src + "/include", "-I", src + "/third_party"]
    objs, jobs = [], []
    for s in SOURCES:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        if points and s == "src/target.c":
            jobs.append([cc] + BASEFLAGS + list(flags) + inc + ["-w"] + ["-DNO_" + n for n in POINTS if n not in points] +
                        ["-include", os.path.join(src, s), "-c", VERIF + "/harness/points.c", "-o", o])
            continue
        jobs.append([cc] + BASEFLAGS + list(flags) + inc + ["-w", "-c", os.path.join(src, s), "-o", o])
    o = os.path.join(d, "driver.o")
    objs.append(o)
    arch = [f for f in flags if f.startswith("-m")]
    jobs.append(["gcc", "-O1", "-g", "-std=gnu11", "-w"] + BASEFLAGS[2:] + arch + list(driver_flags) + inc +
                ["-I", VERIF + "/harness", "-c", VERIF + "/harness/driver.c", "-o", o])
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda j: sh(j), jobs))
    for j, r in zip(jobs, res):
        if r.returncode and j is jobs[-1]:
            r = sh(j + ["-DNO_INTERNAL"])
        if r.returncode:
            if optional:
                return None
            raise Broken("compilation failed: %s\n%s" % (" ".join(j), r.stdout[-3000:]))
    exe = os.path.join(d, "driver")
    lf = [f for f in flags if f.startswith("-fsanitize")]
    r = sh(["gcc", "-o", exe] + objs + lf + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread", "-lm"])
    if r.returncode:
        raise Broken("link failed:\n" + r.stdout[-3000:])
    return exe


_classes = None
_clslock = threading.Lock()


def classes():
    global _classes
    with _clslock:
        if _classes is None:
            d = os.path.join(WORK, "classes")
            os.makedirs(d)
            src = [os.path.join(r, f) for r, _, fs in os.walk(VERIF + "/java") for f in fs if f.endswith(".java")]
            r = sh(["javac", "-nowarn", "-d", d, "-cp", TLAJARS] + src)
            if r.returncode:
                raise Broken("javac: " + r.stdout)
            _classes = d
    return _classes


_defs = threading.Lock()


def definitions():
    """BigMath under another name: its text, without the native evaluation"""
    d = os.path.join(WORK, "def")
    with _defs:
        if not os.path.exists(d):
            os.mkdir(d)
            t = open(os.path.join(VERIF, "spec", "BigMath.tla")).read()
            with open(os.path.join(d, "BigMathDef.tla"), "w") as f:
                f.write(t.replace("MODULE BigMath -", "MODULE BigMathDef -"))
    return d


def tlc(module, cfg=None, args=(), env=None, timeout=800, workers=NCPU, mem="10g"):
    """Run TLC on a module of /verif/spec; returns its output."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=WORK)
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-Xss64m", "-Xmx" + mem,
           "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-DTLA-Library=%s/spec:%s" % (VERIF, definitions()),
           "-cp", classes() + ":" + TLAJARS, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-config", "%s/spec/%s" % (VERIF, cfg or module + ".cfg")]
    cmd += list(args) + ["%s/spec/%s.tla" % (VERIF, module)]
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e, cwd=meta)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


def states(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        return (0, 0)
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def run_driver(exe, lines, threads=0, tag="t", timeout=600, rounds=None):
    s = os.path.join(WORK, tag + ".script")
    o = os.path.join(WORK, tag + ".ndjson")
    with open(s, "w") as f:
        f.write("\n".join(lines) + "\n")
    # threads: n spread over the script, -n side by side
    cmd = [exe, s, o] + ([str(abs(threads))] if threads else []) + (["near" if threads < 0 else "far", str(rounds or ROUNDS)] if threads else [])
    try:
        r = sh(cmd, timeout=timeout, env=dict(os.environ, **CALLENV))
    except subprocess.TimeoutExpired:
        raise Crash("the driver did not finish")
    if r.returncode:
        raise Crash("driver ended with status %d\n%s" % (r.returncode, r.stdout[-2000:]))
    if threads:
        distinct(o)
    return o


def distinct(path):
    """threads replay the same histories again and again: keep one copy of
    every history that was recorded (what differs is a different history)"""
    seen, out, cur = set(), [], []
    for l in list(open(path)) + ['"k":"R"']:
        if '"k":"R"' in l and cur:
            t = "".join(cur)
            if t not in seen:
                seen.add(t)
                out.append(t)
            cur = []
        cur.append(l)
    with open(path, "w") as f:
        f.write("".join(out))


class Crash(Exception):
    """the code under test took the driver down"""


def histories(lines):
    """split a script into histories: lists of (line number, line), each starting with R"""
    hs = []
    for i, l in enumerate(lines):
        if l == "R" or not hs:
            hs.append([])
        hs[-1].append((i + 1, l))
    return hs


def validate(trace, nev=None, timeout=800):
    """Check a recorded trace; returns (rejected ids, generated, distinct)."""
    nlines = sum(1 for l in open(trace) if l.strip())
    nheads = sum(1 for l in open(trace) if '"k":"R"' in l)
    out = tlc("Trace", env={"TRACE": trace}, timeout=timeout)
    if "Model checking completed. No error has been found." not in out:
        i = out.find("Error:"); raise Broken("TLC failed on %s:\n%s\n...\n%s" % (trace, out[max(0, i):i + 1500], out[-600:]))
    g, d = states(out)
    if d != nlines + nheads:
        # every event is consumed exactly once
        raise Broken("trace not fully consumed: %d states, %d events, %d histories" % (d, nlines, nheads))
    outside = re.findall(r'<<"OUTSIDE", (\d+)>>', out)
    if outside:
        raise Broken("script leaves the documented contract at line(s) " + ",".join(outside[:10]))
    rej = sorted(set(int(x) for x in re.findall(r'<<"REJECT", (\d+)>>', out)))
    return rej, g, d


# ------------------------------------------------------------- the processor
def build_caps():
    """the report on the processor, compiled so that the harness answers the
    identification instruction"""
    d = os.path.join(WORK, "build-caps")
    os.makedirs(d, exist_ok=True)
    inc = ["-I", REPO + "/include", "-I", REPO + "/third_party"]
    a, exe = os.path.join(d, "cpu_caps.s"), os.path.join(d, "driver")
    for cmd in (["gcc"] + BASEFLAGS + RELEASE + inc + ["-w", "-mno-red-zone", "-fno-lto", "-S", REPO + "/third_party/cpu_caps.c", "-o", a], None,
                ["gcc", "-O1", "-g", "-std=gnu11", "-w", "-no-pie"] + inc + [a, VERIF + "/harness/caps.c", "-o", exe]):
        if cmd is None:
            t = open(a).read()
            t = "\n".join(re.sub(r"(^|[;:])(\s*)cpuid(\s*)(?=$|[;#])", r"\1\2call vf_cpuid\3", l) for l in t.split("\n"))
            open(a, "w").write(t)
            continue
        r = sh(cmd)
        if r.returncode:
            raise Broken("compilation failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return exe


# ------------------------------------------------ control flow and addresses
def build_ct(name, cc, flags, edits=None):
    d = os.path.join(WORK, "ct-" + name)
    os.makedirs(d, exist_ok=True)
    src = tree(d, edits)
    if src is None:
        return None
    inc = ["-I", src + "/include", "-I", src + "/third_party"]
    exe = os.path.join(d, "ct")
    objs = []
    jobs = []
    for s in SOURCES:
        objs.append(os.path.join(d, os.path.basename(s) + ".o"))
        jobs.append([cc] + BASEFLAGS + list(flags) + inc + ["-g", "-w", "-c", os.path.join(src, s), "-o", objs[-1]])
    objs.append(os.path.join(d, "ct.o"))
    arch = [f for f in flags if f.startswith("-m")]
    jobs.append(["gcc", "-O1", "-std=gnu11", "-w"] + BASEFLAGS[2:] + arch + inc + ["-c", VERIF + "/harness/ct.c", "-o", objs[-1]])
    with ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise Broken("compilation failed:\n" + r.stdout[-3000:])
    r = sh(["gcc", "-no-pie", "-o", exe] + objs)
    if r.returncode:
        raise Broken("link failed:\n" + r.stdout[-3000:])
    return exe


_filter = None


def ct_filter():
    global _filter
    with _clslock:
        if _filter is None:
            f = os.path.join(WORK, "ctfilter")
            r = sh(["gcc", "-O2", "-w", "-o", f, VERIF + "/harness/ctfilter.c"])
            if r.returncode:
                raise Broken("ctfilter: " + r.stdout)
            _filter = f
    return _filter


def ct_trace(exe, lines, tag, want=None, timeout=800):
    """observations of every line (chunk digests); want=(segment, chunk): one chunk in full"""
    f = ct_filter()
    s, o = os.path.join(WORK, tag + ".ct"), os.path.join(WORK, tag + ".obs")
    w = lines[0].split()
    with open(s, "w") as g:
        g.write("warm " + " ".join(w[1:6]) + " " + w[0] + "\n" + "\n".join(lines) + "\n")
    cmd = "timeout %d valgrind --tool=lackey --trace-mem=yes %s %s 2>&1 | %s %s %s" % (timeout, exe, s, f, o, "%d %d" % want if want else "")
    r = sh(["bash", "-c", "set -o pipefail; " + cmd], timeout=timeout + 20)
    if want:
        return open(o).read().splitlines()
    segs = [json.loads(l) for l in open(o)]
    if r.returncode or len(segs) != len(lines):
        raise Crash("%d of %d calls were traced, status %d" % (len(segs), len(lines), r.returncode))
    return segs
