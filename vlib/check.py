"""A check: scripts run on the library, recorded, validated by TLC; evidence."""
from concurrent.futures import ThreadPoolExecutor
import json, os, random, re, shutil, subprocess, sys, time
from . import core, pointgen
from .core import log, Broken, Crash, histories, validate, run_driver, build

EVID = os.path.join(core.VERIF, "evidence")
KNOWN = os.path.join(core.VERIF, "known-findings.txt")
CHUNK = 60000


class Violation(Exception):
    def __init__(self, what, path):
        super().__init__(what)
        self.path = path


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.r = random.Random("%s-%d" % (pid, seed))
        self.t0 = time.time()
        self.states = self.trans = self.traces = self.events = 0
        self.parts = []
        self.samples = []
        self.models = []
        self.notes = []
        self._exe = None
        self._ops = None   # point formulas found
        self.conf = None   # build configuration being replayed, when not the default
        self.nrun = 0

    # ------------------------------------------------------------ building
    @property
    def exe(self):
        if self._exe is None:
            self._exe = build()
        return self._exe

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # -------------------------------------------------------------- traces
    def run(self, name, lines, exe=None, threads=0):
        """replay a script and validate what was recorded"""
        if not lines or lines[0] != "R":
            lines = ["R"] + lines
        exe = exe or self.exe
        hs = histories(lines)
        ev = 0
        chunk, chunks = [], []
        for hh in hs:
            if len(chunk) + len(hh) > CHUNK:
                chunks.append(chunk)
                chunk = []
            chunk = chunk + [l for _, l in hh] if len(chunk) < 2000 else self._ext(chunk, hh)
        chunks.append(chunk)
        for c in chunks:
            rej, g, d, n = self.once(c, exe, threads)
            self.states += d
            self.trans += g
            ev += n
            if rej:
                self.confirm(name, c, rej, exe, threads)
        self.traces += len(hs) * max(1, abs(threads) * core.ROUNDS)
        self.events += ev
        self.parts.append({"part": name, "histories": len(hs), "events": ev, "threads": threads})
        pick = [l for l in lines if l != "R" and " set " not in l]
        if pick:
            self.samples.append({"part": name, "call": self.r.choice(pick)[:300]})

    @staticmethod
    def _ext(chunk, hh):
        chunk.extend(l for _, l in hh)
        return chunk

    def once(self, lines, exe, threads=0):
        self.nrun += 1
        o = run_driver(exe, lines, threads=threads, tag="t%d" % self.nrun, timeout=300)
        try:
            rej, g, d = validate(o)
            n = sum(1 for _ in open(o))
        finally:
            os.unlink(o)
            os.unlink(o[:-7] + ".script")
        return rej, g, d, n

    def again(self, lines, exe, threads=0):
        try:
            rej, _, _, _ = self.once(lines, exe, threads)
        except Crash as e:
            return [0]
        return rej

    def confirm(self, name, lines, rej, exe, threads):
        """a rejected event is reported when it happens again"""
        hs = histories(lines)
        hit = [hh for hh in hs if any(n in rej for n, _ in hh)]
        for hh in hit[:4]:
            one = [l for _, l in hh]
            k = self.again(one, exe)
            if k:
                # shorten: drop everything after the rejected call
                one = one[:min(x for x in k if x) if any(k) else len(one)]
                self.report(name, one, "%d call(s) rejected, first: %s" % (len(rej), one[-1][:200]), exe)
        for _ in range(3):
            k = self.again(lines, exe, threads)
            if k:
                self.report(name, lines, "call(s) %s rejected in this order of calls" % k[:5], exe, threads)
        self.notes.append("%s: rejection of %s not reproduced" % (name, rej[:5]))
        log("note: a rejection was not reproduced:", name, rej[:5], [lines[i - 1][:200] for i in rej[:2]])

    def known(self):
        """replay the recorded findings of this property; those still rejected"""
        out = []
        for l in open(KNOWN):
            if l.startswith("known: property=%s " % self.pid):
                head, call = l[len("known: "):].rstrip("\n").split(" | ")
                if self.again(["R", call], self.exe):
                    out.append(head)
        return out

    def report(self, name, lines, what, exe=None, threads=0):
        path = os.path.join(EVID, "replay-%s.txt" % self.pid)
        os.makedirs(EVID, exist_ok=True)
        with open(path, "w") as f:
            f.write("# property %s, part %s, threads %d\n%s# %s\n# replay: python3 /verif/run.py --replay %s\n" % (self.pid, name, threads, "# config: %s\n" % json.dumps(self.conf) if self.conf else "", what, path))
            f.write("\n".join(lines) + "\n")
        raise Violation("%s: %s" % (name, what), path)

    def crashed(self, name, lines, exe, err, threads=0):
        """find one history that takes the driver down"""
        hs = histories(lines)
        lo = hs
        while len(lo) > 1:
            a, b = lo[:len(lo) // 2], lo[len(lo) // 2:]
            for part in (a, b):
                try:
                    o = run_driver(exe, [l for hh in part for _, l in hh], threads=threads, tag="crash", timeout=120)
                    os.unlink(o)
                except Crash:
                    lo = part
                    break
            else:
                break
        self.report(name, [l for hh in lo for _, l in hh], "the call does not return: " + str(err)[:300], exe, threads)

    def trace(self, name, lines, exe=None, threads=0):
        exe = exe or self.exe
        try:
            self.run(name, lines, exe, threads)
        except Crash as e:
            self.crashed(name, lines, exe, e, threads)

    def watched(self, name, kind, jobs):
        """the histories on a library compiled to watch its own accesses: an access
        outside every object, or one that conflicts with another thread's, ends the
        call (the recorder's rule; the events are judged as everywhere else)"""
        try:
            exe = core.build("watch-" + kind, "gcc", [f for f in core.RELEASE if f != "-O3"] + ["-O1", "-fsanitize=" + kind, "-fno-omit-frame-pointer", "-g"])
            run_driver(exe, ["R"], tag="watch")
            run_driver(exe, ["R"], tag="watch", threads=2)
        except (Broken, Crash) as e:
            self.notes.append("%s: this build does not run here: %s" % (name, str(e)[:200]))
            return
        for threads, lines in jobs:
            self.trace("%s%s" % (name, ", %d threads" % abs(threads) if threads else ""), lines, exe, threads)

    def long(self, name, lines):
        """messages too long to be recorded: one driver each, all at once"""
        hs = histories(lines)
        exe = self.exe

        def one(k):
            self.nrun += 1
            return run_driver(exe, [l for _, l in hs[k]], tag="long%d" % k, timeout=600)
        with ThreadPoolExecutor(core.NCPU) as ex:
            jobs = [ex.submit(one, k) for k in range(len(hs))]
        at = os.path.join(core.WORK, "long.ndjson")
        absent = 0
        with open(at, "w") as f:
            for k, j in enumerate(jobs):
                try:
                    o = j.result()
                except Crash as e:
                    self.report(name, [l for _, l in hs[k]], "the call does not return: " + str(e)[:300], exe)
                for l in open(o):
                    i = re.search(r'"id":(\d+)', l)
                    f.write(l.replace(i.group(0), '"id":%d' % hs[k][int(i.group(1)) - 1][0], 1))
                    absent += '"st":"absent"' in l
                os.unlink(o)
        if absent:
            self.notes.append("%s: %d call(s) not made (no memory for the message, or no such function)" % (name, absent))
        rej, g, d = validate(at)
        os.unlink(at)
        self.states += d
        self.trans += g
        self.traces += len(hs)
        self.events += len(lines)
        self.parts.append({"part": name, "histories": len(hs), "calls_not_made": absent})
        if rej:
            self.confirm(name, lines, rej, exe, 0)

    def points(self, ops, num):
        """the point formulas, called one by one on operands of extreme digits.  They
        are internal: one that does not do its work on ordinary operands either has
        another interface than the one assumed here and is left to the checks at the
        interface of the library"""
        ops = [o for o in ops if o in self._there()]
        if not ops:
            return
        try:
            exe = build("points", points=self._there())
        except Broken as x:
            self.notes.append("the formulas cannot be called one by one: " + str(x)[:200])
            return
        for o in ops:
            fd, op = int(o[:3]), o[3:]
            gen = pointgen.lines if op in pointgen.FORMS else pointgen.scalars
            if self.again(gen(self.r, fd, op, 6, benign=True), exe):
                self.notes.append("formula %s: other operands or results than assumed, not checked on its own" % o)
                continue
            self.trace("%s %s" % ("point formula" if gen is pointgen.lines else "scalar arithmetic", o),
                       gen(self.r, fd, op, 10, benign=True) + gen(self.r, fd, op, num), exe)

    def _there(self):
        if self._ops is None:
            self._ops = core.point_ops()
            gone = [o for o in core.POINTS if o not in self._ops]
            if gone:
                self.notes.append("formulas not found under their names: " + ", ".join(gone))
        return self._ops

    def configurations(self, lines, conf):
        """the script on every build: a trace equal to one already validated is
        a behaviour too; any other trace is validated on its own"""
        if lines[0] != "R":
            lines = ["R"] + lines
        base = run_driver(self.exe, lines, tag="base", timeout=300)
        good = {open(base, "rb").read()}
        if self.again(lines, self.exe):
            raise Broken("the base trace is rejected")

        def one(k):
            name, (cc, flags, edits) = k
            n = "cfg%d" % sorted(conf).index(name)
            try:
                exe = build(n, cc, flags, edits)
            except Broken as e:
                return name, None, None, str(e)
            if exe is None:
                return name, None, None, "no such switch"
            if any("sanitize" in f for f in flags):
                try:
                    run_driver(exe, ["R"], tag=n)
                except Crash as e:
                    return name, None, None, "does not run here"
            try:
                return name, exe, run_driver(exe, lines, tag=n, timeout=400), None
            except Crash as e:
                return name, exe, None, str(e)
        with ThreadPoolExecutor(core.NCPU) as ex:
            res = list(ex.map(one, sorted(conf.items())))
        built = 0
        for name, exe, o, err in res:
            self.conf = conf[name]
            if exe is None:
                if "switch" in err:
                    self.notes.append("%s: the header has no such switch" % name)
                    continue
                # no results to compare: noted, not judged
                self.notes.append("%s does not build: %s" % (name, err[-300:]))
                log("note: %s does not build" % name)
                continue
            built += 1
            if o is None:
                self.crashed("build " + name, lines, exe, err)
            t = open(o, "rb").read()
            nh = lines.count("R")
            if t in good:
                self.traces += nh
                self.parts.append({"part": "build " + name, "histories": nh, "identical_to_a_validated_trace": True})
            else:
                self.trace("build " + name, lines, exe)
                good.add(t)
            os.unlink(o)
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
        self.conf = None
        if built < len(conf) // 2:
            raise Broken("only %d configurations were built" % built)

    def noninterference(self, name, groups, conf):
        """record the observations of every run, step all pairs side by side"""
        cc, flags, edits = conf
        try:
            exe = core.build_ct(re.sub(r"\W", "_", name), cc, flags, edits)
        except Broken as e:
            if not edits:
                raise
            exe = None
        if exe is None:
            self.notes.append("%s: not built" % name)
            return
        jobs = sorted(range(len(groups)), key=lambda i: -len(groups[i]) * (4 if "x448" in groups[i][0][0] else 1))

        def one(i):
            try:
                return core.ct_trace(exe, [l for _, _, l in groups[i]], "ct%d_%d" % (self.nrun, i))
            except Crash as e:
                return e
        with ThreadPoolExecutor(core.NCPU) as ex:
            res = dict(zip(jobs, ex.map(one, jobs)))
        runs = os.path.join(core.WORK, "runs%d.ndjson" % self.nrun)
        self.nrun += 1
        where = []
        with open(runs, "w") as f:
            for i, g in enumerate(groups):
                if isinstance(res[i], Crash):
                    raise Broken(str(res[i]) + " in " + g[0][2])
                for k, ((pub, sec, line), s) in enumerate(zip(g, res[i])):
                    f.write(json.dumps({"pub": pub, "sec": k, "d": s["d"], "n": s["n"]}) + "\n")
                    where.append((i, k))
        out = core.tlc("Noninterference", env={"RUNS": runs}, timeout=600)
        if "Model checking completed. No error has been found." not in out:
            raise Broken("Noninterference: " + out[-2000:])
        g, d = core.states(out)
        want = sum(len(x["d"]) + 1 for i in range(len(groups)) for x in res[i][1:])
        leaks = [tuple(map(int, m)) for m in re.findall(r'<<"LEAK", (\d+), (\d+), (\d+)>>', out)]
        if not leaks and d != want:
            raise Broken("lockstep not complete: %d states of %d" % (d, want))
        self.states += d
        self.trans += g
        self.traces += len(where)
        self.events += sum(s["n"] for i in range(len(groups)) for s in res[i])
        self.parts.append({"part": name, "runs": len(where), "public_classes": len(groups), "observations": sum(s["n"] for i in range(len(groups)) for s in res[i])})
        self.samples.append({"part": name, "call": self.r.choice(self.r.choice(groups))[2][:300]})
        for a, b, t in leaks:
            (i, ka), (_, kb) = where[a - 1], where[b - 1]
            la, lb = groups[i][ka][2], groups[i][kb][2]
            # again, these two alone, the place in full
            ll = [la, lb]
            s = core.ct_trace(exe, ll, "leak")
            if s[0]["d"] == s[1]["d"] and s[0]["n"] == s[1]["n"]:
                ll = [l for _, _, l in groups[i]]
                s = core.ct_trace(exe, ll, "leak")
                if all(x["d"] == s[0]["d"] for x in s):
                    self.notes.append("difference of %s and %s not reproduced" % (la, lb))
                    continue
                kb = [x["d"] == s[0]["d"] for x in s].index(False)
                ka = 0
            else:
                ka, kb = 0, 1
            t = next((k for k, (x, y) in enumerate(zip(s[ka]["d"], s[kb]["d"])) if x != y), 0)
            oa, ob = core.ct_trace(exe, ll, "leak", want=(ka, t)), core.ct_trace(exe, ll, "leak", want=(kb, t))
            k = next((k for k, (x, y) in enumerate(zip(oa, ob)) if x != y), 0)
            pc = [x.split()[1].split(",")[0] for x in oa[:k + 1] if x.startswith("I")][-1:]
            loc = core.sh(["addr2line", "-f", "-e", exe] + pc).stdout.split() if pc else ["?"]
            self.conf = {"name": name, "conf": conf}
            self.report(name, ll, "control flow or addresses depend on the secret at %s: %s / %s" % (" ".join(loc), oa[k:k + 1], ob[k:k + 1]))

    # -------------------------------------------------------------- models
    def model(self, module, cfg=None, env=None, timeout=600, args=(), props=""):
        """exhaustive TLC run of a design model"""
        t = time.time()
        out = core.tlc(module, cfg=cfg, env=env, timeout=timeout, args=args)
        if "Model checking completed. No error has been found." not in out:
            raise Broken("model %s: %s" % (module, out[-3000:]))
        g, d = core.states(out)
        self.states += d
        self.trans += g
        self.models.append({"model": module, "cfg": cfg or module + ".cfg", "env": env or {}, "states": d, "transitions": g, "checked": props, "wall_s": round(time.time() - t, 1)})
        return out

    # ------------------------------------------------------------ evidence
    def evidence(self, level, assumptions=(), violations=()):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "samples": self.samples[:20] or [{"model": m["model"]} for m in self.models],
                           "parts": self.parts, "models": self.models, "notes": self.notes},
              "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1)}
        if violations:
            ev["violations"] = len(violations)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
