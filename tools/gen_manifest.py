#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have a check."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
src = "".join(open(os.path.join(HERE, "sim", f)).read() for f in sorted(os.listdir(os.path.join(HERE, "sim"))) if f.endswith(".cpp"))
have = set(re.findall(r'static Register \w+\(\{"([CN]\d\d)"', src))
if os.path.exists(os.path.join(HERE, "pysim.py")):
    have |= {"C16", "C20", "C21", "C22", "C23"}
NA = {
    "N01": "pure closed-form arithmetic of single numbers: no threads, time, I/O, allocation, history or second party for a simulator to control; the histories that use these formulae are covered by C06 and C08",
    "N02": "pure lookup of calibration constants by date: nothing for a schedule or fault to act on",
}
TECH = {
    "C01": "deterministic simulation: seeded schedules of simulated OpenMP threads, bitwise comparison with the sequential run",
    "C02": "deterministic simulation: seeded schedules of application and worker threads with vector-clock race detection, bitwise comparison with solo runs",
    "C03": "deterministic simulation: seeded trap histories and read-outs, conservation checked after every event",
    "C04": "deterministic simulation: seeded trap histories and read-outs on a checking heap, physical bounds checked after every event",
    "C05": "deterministic simulation: seeded histories with state saved, restored, emptied and copied at arbitrary points, bitwise comparison with twins",
    "C06": "deterministic simulation: seeded trap histories refined against an executable reference model",
    "C07": "deterministic simulation: seeded histories with pruning injected at arbitrary points, compared with never-pruned twins",
    "C08": "deterministic simulation: seeded read-outs on simulated threads compared with a sequential reference model",
    "C09": "deterministic simulation: seeded read-outs on simulated threads compared with the documented iteration",
    "C10": "deterministic simulation: seeded windows and schedules compared with the full run",
    "C11": "deterministic simulation: seeded call histories compared with a fresh process, inputs checked for change",
    "C12": "deterministic simulation with injected disk errors, short writes, full disks, interrupted calls and crashes",
    "C13": "deterministic simulation with injected clock jumps, stalls and broken standard output, bitwise comparison",
    "C14": "deterministic simulation with injected allocation failures",
    "C15": "deterministic simulation: seeded schedules of the read-noise kernel compared with its sequential definition",
    "C16": "deterministic simulation of Python clients: seeded line-level schedules, interrupts at any line, allocation failures and broken output, compared with the core",
    "C20": "deterministic simulation of Python clients with injected interrupts and allocation failures, compared with the documented iteration",
    "C21": "deterministic simulation of Python clients with injected interrupts and broken output, compared with the parameters that made the image",
    "C22": "deterministic simulation of Python clients: seeded histories of malformed and valid requests with injected interrupts and allocation failures",
    "C23": "deterministic simulation of Python clients: seeded line-level schedules, interrupts and broken output, compared with the documented recurrence",
    "C17": "deterministic simulation of the program with injected disk errors, full disks and crashes",
    "C18": "deterministic simulation: heap and descriptor balance over seeded histories of calls and faults",
    "C19": "deterministic simulation: seeded malformed requests on a checking heap",
}
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
for p in props:
    i = p["id"]
    if i in NA:
        continue
    if i not in have:
        na.append({"property": i, "reason": "its check is not written yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": TECH[i], "level": "exploration",
                   "level_note": "Seeded search over simulated executions of the real code: a violation is a replayable counterexample, silence covers the seeds searched (counts in the evidence file). "
                                 "Trusts the simulator's OpenMP runtime, heap and file-call filter and, where named, the independent reference model in sim/model.cpp."})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: threads, heap, clock, exit and file calls are replaced at link time or by a system-call filter in the checks' own build."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
