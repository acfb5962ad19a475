"""writes MANIFEST.json from properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "field": "TLA+ register-machine specification (FieldMachine, Field, BigMath); walks generated by TLC from FieldGen and directed operand sets are replayed on the library; TLC validates every recorded event against the specification",
    "call": "TLA+ specification of the standard evaluated by TLC on every recorded call (trace validation); inputs generated around boundaries, with independent arithmetic in TLA+ only",
    "C17": "TLC trace validation of interleaved call histories (mixed operations, buffer placements, coinciding outputs, 1 and 8 threads) against the TLA+ specification, whose calls have no state beyond registers and open hash contexts",
    "C18": "TLC trace validation of one call history replayed on every build configuration; the traces of all builds must be behaviours of the same TLA+ specification",
    "C19": "TLA+ model of the random source and of a request; TLC enumerates source behaviours (fault scripts), each is replayed against the library with an interposed source and the recorded trace is validated by TLC",
    "C22": "TLA+ specification of processors and of the report on them (Capabilities); TLC enumerates every set of extensions and kind of highest leaf, each is replayed against the compiled report with the identification instruction answered by the harness, and the recorded reports are validated by TLC",
    "C23": "TLA+ trace validation: each recorded call of key generation or key agreement carries the longest run of secret bytes found in the memory it used; TLC checks the result against RFC 7748 and that no copy was left",
    "C21": "TLA+ state machine of the objects handed out and the memory obtained for them (Objects); TLC validates recorded histories of allocations (some refused), releases, printing and other calls, with the allocator interposed",
    "C20": "TLA+ self-composition (noninterference) specification: pairs of recorded control-flow/address traces of the library under different secrets are run in lockstep and TLC checks that the observations agree",
}
NOTE = {
    "*": "Exhaustive over the recorded events: each event of the real library is decided by TLC against the TLA+ specification. The inputs are a directed and seeded sample of an infinite space; design-level models are checked exhaustively on small instances. Trusts TLC, the big-integer module and the compilers.",
    "C18": "The configurations are enumerated (compilers, optimization levels, instruction sets, header switches available here); the inputs are a sample. Trusts the compilers installed.",
    "C19": "All source behaviours up to the stated depth are enumerated by TLC and replayed; longer ones are sampled. Trusts the interposition of libc calls at link time.",
    "C22": "Complete over the sets of the twelve extensions, with the other bits all clear or all set; other values of those bits and other highest leaves are sampled. Trusts the substitution of the CPUID instruction in the compiled report.",
    "C23": "A directed and seeded sample of keys, several compilers and optimization levels. The residue is searched at every bit offset in 24 KB below the caller's frame and in the static data; digits the scalar is recoded into are not searched for. Trusts that nothing runs between the return of the call and the snapshot.",
    "C20": "Observations come from valgrind's memory tracing of an optimized build; pairs of secrets are a directed sample. Micro-architectural leaks outside control flow and addresses are out of scope.",
}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
import sys
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import props
checks, na = [], []
for i in ids:
    if i not in props.PROPS:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i) or TECH["field" if i in ("C01", "C02", "C03", "C04") else "call"],
                   "level": "model_checking", "level_note": NOTE.get(i, NOTE["*"])})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are compiled into /repo: the library is built from its own sources, and the harness links internal entry points weakly. Findings are in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
