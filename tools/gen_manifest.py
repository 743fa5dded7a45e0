#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import jobs  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    c = jobs.CHECKS.get(i)
    if not c:
        na.append({"property": i, "reason": jobs.NOT_APPLICABLE.get(i, "no check has been built for it yet")})
        continue
    b = c["bounds"] if isinstance(c["bounds"], str) else c["bounds"]["quick"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py %s quick" % i,
        "thorough_cmd": "python3 check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the LLVM IR of the real code, decided by SMT (z3)",
        "level": "model_checking",
        "level_note": "Bounds: %s. Counterexamples are replayed on a native sanitizer build. Within the bounds trusted: "
                      "clang's IR, the executor's memory and libc models, z3." % b,
    })
m = {"version": 1, "setup_cmd": "bash engine/build.sh _build", "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
