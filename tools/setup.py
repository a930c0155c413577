#!/usr/bin/env python3
"""setup_cmd: shows that the tools are there and that everything builds from the committed files."""
import os, subprocess, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core
for t in ("java", "quint", "cargo"):
    if subprocess.run(["which", t], capture_output=True).returncode != 0:
        sys.exit("missing tool: " + t)
core.harness("dev")
core.harness("rel")
core.cli(hooks=True)
core.cli(hooks=False)
core.python_pkg()
print("ready")
