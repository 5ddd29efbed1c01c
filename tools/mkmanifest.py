#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, sys
sys.path.insert(0, ".")
sys.dont_write_bytecode = True
from checks import CHECKS
props = [json.loads(l) for l in open("properties.jsonl")]
NA = json.load(open("tools/na.json"))
m = {"version": 1, "setup_cmd": "python3 run_check.py --setup",
     "hooks": {"guard": "none", "enable": "no hooks: the monitors observe the library through its public interface, the C structures it exposes, sanitizers, malloc hooks and its own contract macros (redefined on the compiler command line with -include lib/vt_contracts.hpp)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 run_check.py {i}", "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": c.get("technique", "runtime monitoring: randomised histories under ASan+UBSan, lockstep reference model"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Holds on every execution explored (counts in the evidence file); trusts the reference model in lib/ and the sanitizers. ") })
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No monitor yet: work in progress.")})
json.dump(m, open("MANIFEST.json","w"), indent=1); open("MANIFEST.json","a").write("\n")
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
