#!/usr/bin/env python3
"""Writes MANIFEST.json (and checks it and properties.jsonl against their schemas when jsonschema is there)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "runtime monitor: lockstep comparison with an independent FE reference over generated cells",
 "C02": "runtime monitor: tangent against the consistent reference tangent and against differences of the library's own stress",
 "C03": "runtime monitor: offline checker over written field files (boundary, averages, equilibrium)",
 "C04": "runtime monitor: eigenvalue and energy-bound invariants on returned tensors",
 "C05": "runtime monitor: online checker of J2 paths against a return-mapping reference, bit-tight",
 "C06": "runtime monitor: lockstep incremental elasto-plastic reference solution, stress, tangent and internal variables",
 "C07": "runtime monitor: online trace checker of trial/commit histories",
 "C08": "runtime monitor: per-point lockstep checker over many interleaved points",
 "C09": "ThreadSanitizer plus differential monitor of objects alone, interleaved and threaded",
 "C10": "AddressSanitizer, UBSan, LeakSanitizer and heap accounting over all workloads",
 "C11": "valgrind memcheck, heap and stack fill differential runs, bitwise",
 "C12": "runtime monitor: shortcut decision checker around the tolerance",
 "C13": "runtime monitor: checker of recorded iterations and residuals against the reference solution",
 "C14": "runtime monitor: offline checker of field files against the reference fields and mesh",
 "C15": "runtime monitor: offline checker of the appended record logs",
 "C16": "runtime monitor: lockstep checker with injected observations",
 "C17": "differential monitor of the class against the flat interface, bitwise",
 "C18": "runtime monitor: sparse operations against dense linear algebra",
 "C19": "runtime monitor: entry-wise checker of matrices before and after boundary conditions",
 "C20": "runtime monitor: residual checker of solver results and reports",
 "C21": "metamorphic runtime monitor: pairs of scaled, mirrored and permuted runs",
 "C22": "runtime monitor: flag trace checker around the onset of yield",
 "C23": "runtime monitor: thermodynamic invariants at every commit",
 "C24": "runtime monitor: cell-wise checker of written phases and their stiffness",
 "C25": "runtime monitor: rotation-invariance checker and reported-invariant checker",
 "C26": "fault injection (file size, descriptor and directory faults) with a bitwise differential monitor",
 "C29": "runtime monitor: queries about the cell injected between point evaluations, against the definition of the cell, against each other and bitwise",
 "C28": "runtime monitor: element and integration-point calls against the constitutive law and finite-element reference",
 "C27": "runtime monitor: stepping calls injected between point evaluations, against the reference solution and bitwise",
}
checks = []
for p, t in sorted(T.items()):
    note = "Held on every observed execution of the generated workload; nothing is claimed about inputs that were not generated. Trusts the reference model in harness/, the compiler and its sanitizers."
    if p == "C26":
        note = "Faults are injected at every file operation position drawn by the generator (six kinds); otherwise as exploration."
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                       technique=t, level="fault_enumeration" if p == "C26" else "exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(0)\" && g++ --version >/dev/null && valgrind --version >/dev/null", checks=checks, not_applicable=[],
         notes="No hooks in /repo: the monitors observe the public API and the written files. /repo carries fix: commits only (see KNOWN_FINDINGS.txt). Every check builds /repo/src and harness/ itself into build/ (ignored by git).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    ids = []
    for l in open(os.path.join(V, "properties.jsonl")):
        d = json.loads(l)
        jsonschema.validate(d, sch)
        ids.append(d["id"])
    assert sorted(ids) == sorted(T), set(ids) ^ set(T)
    print("valid,", len(ids), "properties")
except ImportError:
    pass
