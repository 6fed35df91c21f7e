#!/usr/bin/env python3
"""Writes MANIFEST.json from the catalog"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import catalog
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
NA = {
 "C19": "counting is a pure function of one cart: no schedule, time, I/O, history or fault can influence it beyond what C01, C08 and C10 already cover, and the reference (the console's own counter) is not available here",
 "C20": "lint is a pure function of one source text, independent of schedules, time, faults and histories; deciding completeness needs static reasoning about the language, not simulation (how lint ends and what it leaves behind is covered by C01, C02, C09 and C13)",
 "C21": "the rename map is a pure by-product of one minification; nothing in it depends on schedules, time, faults or histories (that it is written completely or the run fails is covered by C01)",
 "C22": "output size is a pure function of one input and optimality would need a search over encodings, not over executions",
}
checks = []
for p in props:
    pid = p["id"]
    m = catalog.PROPS.get(pid)
    if m is None: continue
    checks.append(dict(property=pid, quick_cmd="./check.py %s --tier quick" % pid, thorough_cmd="./check.py %s --tier thorough" % pid,
        evidence_file="evidence/%s.json" % pid, technique="deterministic simulation with fault injection: " + m["technique"],
        level=m.get("level", "exploration"), level_note=m["note"]))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in catalog.PROPS]
doc = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import PIL, lupaz8' && ./check.py selftest", checks=checks, not_applicable=na,
    notes="No hooks were needed in /repo: the simulator replaces the interpreter's own system-call seams (open, os, socket, time, stdio) inside a forked child that runs the unmodified tool.")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f: json.dump(doc, f, indent=1); f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
