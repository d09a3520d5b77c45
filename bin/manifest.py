#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation: seeded histories with allocation and user-code failures against an executable reference model",
    "C02": "deterministic simulation: every failure point of seeded programs injected, operands compared with the reference, retry",
    "C03": "deterministic simulation: seeded programs with injected failures repeated in one process, held blocks counted",
    "C04": "deterministic simulation: seeded request sequences with failures on long-lived objects, answers put into the defining equations",
    "C05": "deterministic simulation: seeded evaluation sequences with failures against extended-precision solve and quadrature",
    "C06": "deterministic simulation: seeded request sequences with failures against the definition and a fresh object",
    "C07": "deterministic simulation: real threads under a seeded scheduler that switches at memory accesses, results compared with solo runs",
    "C08": "deterministic simulation: real threads under a seeded scheduler that switches at memory accesses, results compared with solo runs",
    "C09": "deterministic simulation: scripted external solver (outcomes, callback orders, exceptions) behind the ifopt interface",
    "C10": "deterministic simulation: storage of records with seeded corruption, read back through the Python module",
    "C11": "deterministic simulation: seeded histories with failures against an executable reference model",
    "C12": "deterministic simulation: the same seeded program under different simulated memory contents and placement",
    "C13": "deterministic simulation: random source behind a seam, all outcomes decided by the seed",
    "C14": "deterministic simulation: seeded call histories through the Python module with simulated reuse of released memory",
    "C15": "deterministic simulation: scripted external solver driving the problem objects in seeded callback orders",
    "C16": "deterministic simulation: seeded update histories with failures against freshly built operators and the definition",
}
NOTE = {
    "C02": "every allocation and user-code failure point of each sampled program is enumerated; the programs themselves are sampled by seed",
    "C03": "failure points enumerated per sampled program; programs sampled by seed",
}
NA = {
    "C17": "a pure function of one integer: no schedule, fault, clock, I/O or history can influence it, so there is nothing to simulate",
    "C18": "a pure function of its arguments (a spline and bounds): no schedule, fault, clock, I/O or history can influence it, so there is nothing to simulate",
    "C19": "a pure function of two values and a tolerance: no schedule, fault, clock, I/O or history can influence it, so there is nothing to simulate",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i in PROPS:
        c = dict(property=i, quick_cmd="python3 bin/check.py %s quick" % i, thorough_cmd="python3 bin/check.py %s thorough" % i, evidence_file="evidence/%s.json" % i, technique=TECH[i], level=PROPS[i]["level"],
                 level_note=NOTE.get(i, "seeded search over histories, schedules and faults; a clean run is evidence, not proof") + ". Assumes: " + "; ".join(PROPS[i]["assumptions"]) + ". Stubs: " + "; ".join(PROPS[i]["stub"]))
        checks.append(c)
na = [dict(property=i, reason=NA.get(i, "not claimed yet: the simulated world for it is under construction")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 bin/build.py", checks=checks, not_applicable=na, notes="No hooks in /repo: every seam used is a public interface, the linker or the compiler. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
