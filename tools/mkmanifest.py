#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules present in dst/props."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = {
 "fault_enumeration": "",
}
NA = {
 "C16": "Pure function of the fibre table: no schedule, clock, I/O or fault can influence it beyond what C03-C05 and C10 already "
        "simulate; checking the geometry itself would be input generation, not simulation.",
 "C17": "Pure function of the mesh and material (closed-form matrix): nothing for a schedule or fault to change beyond C03-C05; "
        "its consequences under faulty backends are claimed in C06-C08.",
 "C18": "Pure function of the network table: no schedule, clock, I/O or fault involved; damaged meshes are claimed in C11.",
 "C19": "Pure function of the data array; what faults and cut-offs do to interpolated histories is claimed in C06 and C07.",
}
PY = "/opt/venv/bin/python dst/check.py"
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(ROOT, "dst", "props", i.lower() + ".py")
    if os.path.exists(f):
        consts = {}
        for node in ast.parse(open(f).read()).body:
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                try:
                    consts[node.targets[0].id] = ast.literal_eval(node.value)
                except ValueError:
                    pass
        checks.append({"property": i, "quick_cmd": "%s %s quick" % (PY, i), "thorough_cmd": "%s %s thorough" % (PY, i),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: " + consts.get("HOW", "seeded search over schedules and faults"),
                       "level": consts["LEVEL"],
                       "level_note": consts.get("NOTE", "Seeded search, not proof: no violation in the sampled schedules and fault sequences. Third-party calls are atomic for scheduling.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "Check not built yet.")})
doc = {"version": 1, "setup_cmd": "/opt/venv/bin/python dst/selftest.py", 
       "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: library steps are observed through sys.monitoring, all other seams are arguments the library already "
                "has or dispatchers installed before it is imported. dst/replay.py FILE replays a violation."}
json.dump(doc, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
