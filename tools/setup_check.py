"""setup_cmd: nothing to build ahead (each check compiles its simulation top and imports /repo's working
tree itself); verifies that the tools the checks need are present."""
import os
import shutil
import sys
missing = [t for t in ("iverilog", "vvp") if not shutil.which(t)] + \
    [f for f in ("/opt/venv/bin/python", "/repo/src/uvm/__init__.py") if not os.path.exists(f)]
print("missing:", missing) if missing else print("ready")
sys.exit(bool(missing))
