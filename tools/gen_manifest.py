#!/usr/bin/env python3
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
from na import NA
props = [json.loads(l) for l in open(V / "properties.jsonl")]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": "symbolic execution of the compiled code (wasm32) with z3 deciding every branch and assertion",
            "level": "model_checking",
            "level_note": ("Bounded: " + c["bounds"] + ". " + c.get("note", "")).strip(),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
HOOKS = {
    "guard": "cfg(wsym)",
    "enable": "RUSTFLAGS contains --cfg wsym when check.py builds the harness crates (wasm32 and native)",
    "source_commits": ["7417934", "1578e12", "c99cbcc", "0bed382", "819ed8c"],
}
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "hooks": HOOKS, "checks": checks, "not_applicable": na,
           "notes": "The engine is /verif/wsym (built by setup_cmd); harness crates are under /verif/harness; checks.py maps properties to harness entries and bounds."},
          open(V / "MANIFEST.json", "w"), indent=1)
open(V / "MANIFEST.json", "a").write("\n")
