#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the tables below (run by hand)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vp"))
from registry import PROPS

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))

I = "include/svs/"
from props_text import TEXT
props = [P(**t) for t in TEXT]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for t in TEXT:
    i = t["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3-vt vp/check.py {i} --tier quick", thorough_cmd=f"python3-vt vp/check.py {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                           technique=s.get("technique", "contract-based deductive verification of the LLVM IR extracted from the real headers (VC generation, inductive invariants, SMT)"),
                           level=s.get("level", "proof"), level_note=s["note"]))
    else:
        from props_text import NA
        na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the contracts for it are still being written")))
m = dict(version=1, setup_cmd="python3-vt vp/setup.py", hooks=dict(guard="none (no hook is needed: private members are reached with -fno-access-control in the verification harnesses only)", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Checks extract the IR from /repo's current headers on every run. vp/engine.py, vp/execu.py, vp/ground.py: the verifier; vp/units: the contracts; native: replay harnesses (bounded).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
