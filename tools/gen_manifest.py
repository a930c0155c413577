#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in checks/ (run by hand after editing)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
exec(open(os.path.join(here, "tools", "techniques.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        t, note = T[i]
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("Verification hook")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "reml_verif", "enable": "RUSTFLAGS='--cfg reml_verif' cargo build -p reductionml-cli (done by the checks that need it, into /verif/.build)",
               "source_commits": hooks},
     "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds what it needs from /repo's working tree into /verif/.build. Known and repaired defects: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
