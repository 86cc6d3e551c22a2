#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IR = "symbolic execution of the LLVM IR of the real code, SMT sweeping and path queries in z3 (bit-vectors)"
CB = "bounded model checking of the real C code with CBMC (SAT/SMT), stubs for the environment, counterexamples replayed natively"
T = {}
for i in "C01 C02 C03 C04 C05".split():
    T[i] = (IR, "All byte values of every listed length, six build configurations, against a reference derived from the standard; placement and padding for messages of any size; the compression function from every state.")
T["C06"] = (IR, "Split patterns with symbolic contents in six configurations; one update of any size from any reachable state of the built-in implementation.")
T["C07"] = (IR, "Any key and message size over an uninterpreted digest; key lengths around every case boundary over the real one, symbolic key and message bytes, six configurations.")
T["C10"] = (IR, "Every public call with each argument invalid (symbolic invalid sizes) inside a history, six configurations.")
T["C11"] = (IR, "Every subset of failing allocations and back-end operations, six configurations.")
T["C12"] = (IR, "Dependency of released memory on the key under every fault subset; finalized context identical to zero.")
T["C13"] = (IR, "Interleavings of two contexts at call granularity plus absence of writes to static data.")
T["C08"] = (IR, "Any update size and any earlier total below 2^61 bytes, both loop variants: placement of every byte, padding and length field.")
T["C09"] = (IR, "Exact-size buffers on every path of every scenario, and buffers of symbolic size.")
T["C15"] = (IR, "Overlapping input, key and result buffers at every kind of relative position, buffers changed between calls, six configurations.")
T["C14"] = (CB, "Every macro and bulk function over all byte values, against positional arithmetic.")
for i in "C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split():
    T[i] = (CB, "Real tool sources with nondeterministic library stubs, within the stated bounds.")
for i in "C26 C27 C28".split():
    T[i] = (CB, "Real binding sources with a model of the interpreter's C interface, every failing call.")
import sys
have = open(os.path.join(V, "run_check.py")).read()
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
done = [i for i in ids if i in have]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./run_check.py %s quick" % i, "thorough_cmd": "./run_check.py %s thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": T[i][0], "level": "other", "level_note": T[i][1]} for i in done],
     "not_applicable": [{"property": i, "reason": "not yet built"} for i in ids if i not in done],
     "notes": "All checks are solver-based: bounded symbolic execution of the current source in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(done), "checks")
