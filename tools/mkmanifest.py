#!/usr/bin/env python3
"""Write MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + "/lib")
import props
NA = json.load(open(R + "/tools/na.json")) if os.path.exists(R + "/tools/na.json") else {}
checks, na = [], []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]
    if i in props.PROPS:
        q = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique="symbolic execution of the LLVM IR compiled from /repo's sources, every verdict decided by term rewriting and Z3",
            level="model_checking",
            level_note="Holds for every value of the symbolic inputs within: " + q["bounds"] + ". Outside: " + q["outside"] + ". Trusts clang's -O0 front end, the executor and Z3; path models are replayed against the compiled code."))
    else: na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="make -s -j8 -C engine OUT=/verif/build", checks=checks, not_applicable=na), open(R + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
