#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a workload is claimed."""
import json, os, re, sys
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l) for l in open("properties.jsonl")]
built = set(re.findall(r'Props\["(\w+)"\]\s*=', "".join(open("sim/wl/" + f).read() for f in os.listdir("sim/wl"))))
NA = {}
TECH = {
 "default": "deterministic simulation: seeded scheduler preempting simulated caller tasks at every statement of the instrumented library, sequential reference model checked at every operation, plus a happens-before race oracle",
 "fault": "deterministic simulation with fault injection: seeded scheduler plus callback panics and re-entrant queries injected at chosen invocations, reference model checked during and after recovery, plus a happens-before race oracle",
}
FAULT = {"C14", "C17", "C18", "C21", "C22"}
NOTE = ("Seeded sampling of schedules, faults and histories, not a proof. Trusts the Go toolchain, the instrumenter (inserts a yield before every statement "
        "of /repo's non-test code, redirects map ranges and sync primitives), the simulated readers-writer lock and the small reference model in /verif/sim/wl. ")
EXTRA = {
 "C10": "Ropes are edited through one handle per part, as documented; aliases of a rope that was joined or split further are not used.",
 "C02": "Rebalance/Rebuild, documented as in-place, are applied only by the owning task to versions it has not published.",
 "C14": "The cache is used under an exclusive lock, as Get updates recency; callbacks only query.",
 "C21": "Cost is counted in executed statements of the library (not in time), so copying by append, copy and make is only seen through allocation, which is measured for hashmap.Copy, prope.Insert and prope.Remove. Bounds are six times the dearest call seen on the reference tree, from 400 elements up.",
 "C22": "NaN arguments and lo > hi are not used; ties of the *Func minimum and maximum may go either way.",
 "C20": "Ropes of one package share that package's configuration variables, as documented.",
 "C16": "Iteration order of builtin maps is behind the seam, except inside golang.org/x/exp/maps.",
}
checks = []
for p in props:
    i = p["id"]
    if i in built and i not in NA:
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json", "technique": TECH["fault" if i in FAULT else "default"],
            "level": "exploration", "level_note": (NOTE + EXTRA.get(i, "")).strip()})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in {c["property"] for c in checks}]
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks are committed in /repo: the seams are inserted into a scratch copy by /verif/sim/cmd/instr through go build -overlay at check time. './check replay FILE' re-executes a replay file."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", [n["property"] for n in na])
