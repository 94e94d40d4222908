"""P(...) writes a planted bug to /verif/seeded/<id>; `python3 tools/planting.py ID...` tries them out
(build, stable tests, demo on the unchanged and the changed tree, the property's quick check) in private
mount namespaces, in which scratch copies stand in for /repo and /verif."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LOCK = threading.Lock()
PLAIN = """#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0
cd "$work" && timeout 200 /opt/venv/bin/python "$here/demo.py" > out.txt 2>&1
tail -15 out.txt
grep -q '^DEMO-OK' out.txt
"""

SIM = """#!/bin/bash
# exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin VIRTUAL_ENV=/opt/venv
export PYTHONPATH="$PWD/src:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore PYTHONHASHSEED=0
export LIBPYTHON_LOC=$(find_libpython) TOPLEVEL=demo_top TOPLEVEL_LANG=verilog MODULE=demo RANDOM_SEED=1 COCOTB_ANSI_OUTPUT=0
export PYGPI_PYTHON_BIN=/opt/venv/bin/python COCOTB_RESULTS_FILE="$work/results.xml"
cd "$work" || exit 3
printf '`timescale 1ns/1ps\\nmodule demo_top; reg x = 0; endmodule\\n' > top.sv
iverilog -g2012 -s demo_top -o top.vvp top.sv || exit 3
timeout 200 vvp -M "$(cocotb-config --lib-dir)" -m libcocotbvpi_icarus top.vvp PLUSARGS > out.txt 2>&1
tail -15 out.txt
grep -q '^DEMO-OK' out.txt
"""


def P(sid, prop, edits, needs, breaks, demo, sim=False, plusargs=""):
    """edits: [(file, old, new)], each old text must occur exactly once"""
    d = os.path.join(HOME, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    new = {}
    for f, old, rep in edits:
        if f not in new:
            with open(os.path.join("/repo", f)) as h:
                new[f] = h.read()
        assert new[f].count(old) == 1, (sid, f, old, new[f].count(old))
        new[f] = new[f].replace(old, rep)
    with open(os.path.join(d, "patch.diff"), "w") as h:
        for f, text in new.items():
            with open(os.path.join("/repo", f)) as g:
                was = g.read()
            h.write(f"diff --git a/{f} b/{f}\n")
            for line in difflib.unified_diff(was.splitlines(True), text.splitlines(True), "a/" + f, "b/" + f):
                h.write(line if line.endswith("\n") else line + "\n\\ No newline at end of file\n")
    with open(os.path.join(d, "demo.sh"), "w") as h:
        h.write(SIM.replace("PLUSARGS", plusargs) if sim else PLAIN)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.py"), "w") as h:
        h.write(demo.lstrip("\n"))
    with open(os.path.join(d, "meta.json"), "w") as h:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, h, indent=1)
        h.write("\n")


def attempt(sid, tests=True):
    src = os.path.join(HOME, "seeded", sid)
    with open(os.path.join(src, "meta.json")) as f:
        prop = json.load(f)["property"]
    base = f"/tmp/plant/{sid}"
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
    subprocess.run(["cp", "-a", HOME, base + "/verif"], check=True)
    subprocess.run(["cp", "-a", src, base + "/demo"], check=True)
    res = {"id": sid, "property": prop}

    def ns(cmd, timeout=900):
        full = f"mount --bind {base}/repo /repo && mount --bind {base}/verif {HOME} && cd /repo && {cmd}"
        return subprocess.run(["unshare", "-Urm", "bash", "-c", full], capture_output=True, text=True, timeout=timeout,
                              env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick", VP_JOBS=os.environ.get("VP_JOBS", "4")))
    r = ns(f"bash {base}/demo/demo.sh")
    res["demo_clean"] = r.returncode
    if r.returncode:
        res["demo_out"] = r.stdout[-1500:]
    r = subprocess.run(["git", "apply", f"{src}/patch.diff"], cwd=base + "/repo", capture_output=True, text=True)
    res["apply"] = r.returncode or r.stderr
    r = ns("bash /opt/vp/build.sh")
    res["build"] = r.returncode
    res["demo_bug"] = ns(f"bash {base}/demo/demo.sh").returncode
    if tests:
        ns(f"bash /opt/vp/test.sh {base}/t.json")
        with open("/opt/vp/BASELINE.json") as f:
            stable = set(json.load(f)["stable"])
        with open(base + "/t.json") as f:
            t = json.load(f)
        res["tests_broken"] = sorted(stable - set(t["passed"]))[:5]
    r = ns(f"cd {HOME} && python3 run_check.py {prop}")
    res["check"] = r.returncode
    res["says"] = [x for x in r.stdout.split("\n") if "VIOLATION" in x][:2] or r.stdout[-300:]
    shutil.rmtree(base, ignore_errors=True)
    ok = not res["demo_clean"] and res["demo_bug"] and not res.get("tests_broken") and not res["apply"] and not res["build"]
    with LOCK:
        path = os.path.join(HOME, "notes", "caught.json")
        known = {}
        if os.path.exists(path):
            with open(path) as f:
                known = json.load(f)
        known[sid] = f"caught by {prop} (quick)" if res["check"] == 1 else "not caught"
        with open(path, "w") as f:
            json.dump(known, f, indent=1, sort_keys=True)
            f.write("\n")
    print(("COUNTS " if ok else "INVALID "), "caught" if res["check"] == 1 else f"MISSED({res['check']})", json.dumps(res), flush=True)


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda i: attempt(i, "--notests" not in sys.argv), ids))
