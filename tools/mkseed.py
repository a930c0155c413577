#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)].
The demonstration runs with the Python package and the reml binary that build.sh made.  Development aid only."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as it should; non-zero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
export PYTHONPATH="$PWD/target/vp-python:$here" REML="$PWD/target/debug/reml" REPO="$PWD" RUST_BACKTRACE=0 PYTHONDONTWRITEBYTECODE=1
cd "$d" && timeout 250 /opt/vp/pyenv/bin/python "$here/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    out = ""
    by = {}
    for f, old, new in s["edits"]:
        t = by.get(f) or open("/repo/" + f).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        by[f] = t.replace(old, new)
    for f, t in by.items():
        os.makedirs("/tmp/mkseed/" + os.path.dirname(f), exist_ok=True)
        open("/tmp/mkseed/" + f, "w").write(t)
        p = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, "/tmp/mkseed/" + f], capture_output=True, text=True)
        out += "diff --git a/%s b/%s\n" % (f, f) + p.stdout
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(s["demo"].lstrip())
    for n, t in s.get("files", {}).items():
        open(d + "/" + n, "w").write(t.lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
