#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]   run one check
   run.py --setup                     compile what the checks need
   run.py --replay FILE               replay a recorded violation"""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import core, check, props


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        core.classes()
        print("ok")
        return 0
    if a and a[0] == "--replay":
        lines = [l.rstrip("\n") for l in open(a[1]) if not l.startswith("#") and l.strip()]
        head = open(a[1]).readline()
        if "property C20" in head:
            conf = json.loads([l for l in open(a[1]) if l.startswith("# config: ")][0][10:])["conf"]
            s = core.ct_trace(core.build_ct("replay", *conf), lines, "replay")
            for l, x in zip(lines, s):
                print(x["n"], x["d"][-1] if x["d"] else "", l[:120])
            return 1 if any(x["d"] != s[0]["d"] for x in s) else 0
        conf, threads = ("gcc", None, None), 0
        for l in open(a[1]):
            if l.startswith("# config: "):
                conf = json.loads(l[10:])
            if l.startswith("# property") and ", threads " in l:
                threads = int(l.split(", threads ")[1])
        try:
            o = core.run_driver(core.build_caps() if any(l.startswith("K ") for l in lines) else core.build("replay", *conf, points=core.point_ops() if any(l[:2] in ("P ", "M ") for l in lines) else None), lines, threads=threads)
        except core.Crash as e:
            print("crash:", e)
            return 1
        rej, g, d = core.validate(o)
        for n in rej:
            print("rejected:", lines[n - 1])
            for ev in open(o):
                if '"id":%d,' % n in ev:
                    print("observed:", ev.rstrip())
        return 1 if rej else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = check.Check(pid, tier, seed)
    try:
        props.PROPS[pid](c)
        findings = c.known()
    except check.Violation as v:
        c.evidence(props.MC, violations=[str(v)])
        print("rejected:", str(v)[:600])
        print("VIOLATION property=%s replay=%s" % (pid, v.path), flush=True)
        return 1
    except (core.Broken, core.Crash) as e:
        print("BROKEN", str(e)[-4000:], flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    for k in findings:
        print("KNOWN-FINDING:", k)
    c.evidence(props.MC, assumptions=props.ASSUMPTIONS.get(pid, props.ASSUMPTIONS["*"]))
    print("ok %s: %d histories, %d events, %d states, %.1fs" % (pid, c.traces, c.events, c.states, __import__("time").time() - c.t0), flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())
