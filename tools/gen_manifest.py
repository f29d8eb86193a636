#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources to LLVM IR and executes the harness symbolically (engine/, Z3); see DESIGN.md."}
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "bounded symbolic execution of the real code's LLVM IR with SMT (Z3), schedules and faults as symbolic choices",
            "level": "model_checking",
            "level_note": "Holds for every value and schedule within: " + s["bounds"] + ". Outside: " + s["outside"] + ". Trusts clang, the engine in engine/, Z3 and the libc/libstdc++ models in env/."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
