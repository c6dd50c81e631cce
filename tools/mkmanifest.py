#!/usr/bin/env python3
"""MANIFEST.json from the checks present and the reasons for the properties not claimed."""
import json, os, sys, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/sa")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks = []; na = []
for i in ids:
    if os.path.exists(V + "/sa/checks/%s.py" % i.lower()):
        m = importlib.import_module("checks." + i.lower())
        c = {"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
             "technique": "static analysis: " + m.TECHNIQUE, "level": getattr(m, "LEVEL", "proof"),
             "level_note": getattr(m, "NOTE", "Sound for the obligations listed in the evidence over the analysed program (every CPU template instantiation), trusting the clang front end, the analyser's models of the standard library and the documented semantics of MPI and vendor calls.")}
        checks.append(c)
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built (yet) for this property")})
json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks analyse the source of /repo on every run; nothing of heFFTe is executed."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
