"""Orchestrates one check: spreads cases over worker processes, merges what they observed,
decides, writes the evidence file and prints the verdict."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
PY = "/opt/venv/bin/python"
COCOTB = "/opt/venv/lib/python3.12/site-packages/cocotb/libs"


def base_env(work):
    env = {k: v for k, v in os.environ.items() if k in ("HOME", "LANG", "VERIF_SEED", "VERIF_TIER")}
    env.update({
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "VIRTUAL_ENV": "/opt/venv", "PYTHONHASHSEED": "0", "PYTHONPATH": f"{REPO}/src:{HOME}",
        "PYTHONPYCACHEPREFIX": os.path.join(work, "pyc"), "PYTHONWARNINGS": "ignore::SyntaxWarning",
        "VP_HOME": HOME, "RANDOM_SEED": "1", "COCOTB_ANSI_OUTPUT": "0",
        "COCOTB_LOG_LEVEL": "ERROR", "VERIF_HOOKS": "1"})
    return env


def launch(check, spec, work, n):
    path = os.path.join(work, f"spec{n}.json")
    spec["out"] = os.path.join(work, f"out{n}.jsonl")
    with open(path, "w") as f:
        json.dump(spec, f)
    env = base_env(work)
    cwd = os.path.join(work, f"cwd{n}")
    os.makedirs(cwd)
    if getattr(check, "SIM", False):
        env.update({
            "LIBPYTHON_LOC": libpython(), "TOPLEVEL": "vp_top", "TOPLEVEL_LANG": "verilog",
            "MODULE": "vp.sim_entry", "VP_SPEC": path,
            "COCOTB_RESULTS_FILE": os.path.join(cwd, "results.xml"), "PYGPI_PYTHON_BIN": PY})
        cmd = ["vvp", "-M", COCOTB, "-m", "libcocotbvpi_icarus", os.path.join(work, "top.vvp")]
        cmd += list(getattr(check, "PLUSARGS", []))
    else:
        env["VP_SPEC"] = path
        cmd = [PY, "-m", "vp.exec", path]
    log = open(os.path.join(work, f"log{n}"), "w")
    return subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=log,
                            stderr=subprocess.STDOUT, start_new_session=True), spec["out"], log.name


_lib = []


def libpython():
    if not _lib:
        _lib.append(subprocess.run(["/opt/venv/bin/find_libpython"], capture_output=True, text=True,
                                   env={"PATH": "/opt/venv/bin:/usr/bin:/bin"}).stdout.strip())
    return _lib[0]


def preflight(work):
    """The library the workers import is /repo's working tree."""
    r = subprocess.run([PY, "-c", "import uvm,sys; print(uvm.__file__)"], env=base_env(work), cwd=work,
                       capture_output=True, text=True)
    where = r.stdout.strip().split("\n")[-1]
    if not where.startswith(f"{REPO}/src/uvm/"):
        print(r.stdout[-2000:], r.stderr[-3000:])
        return f"cannot import the library from {REPO}: {where}"
    return None


def load_known(check_id):
    path = os.path.join(HOME, "known", "findings.json")
    with open(path) as f:
        return {x["id"]: x for x in json.load(f)["findings"] if x["property"] == check_id}


def run_check(check_id, check, replay=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    work = tempfile.mkdtemp(prefix=f"vp_{check_id}_")
    try:
        return _run(check_id, check, tier, seed, t0, work, replay)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _run(check_id, check, tier, seed, t0, work, replay):
    problem = preflight(work)
    if problem:
        print("INCONCLUSIVE", problem)
        return 2
    if getattr(check, "SIM", False):
        subprocess.run(["iverilog", "-g2012", "-s", "vp_top", "-o", os.path.join(work, "top.vvp"),
                        os.path.join(HOME, "vp", "simtop.sv")], check=True)
    n_cases = check.CASES[tier]
    wall = {"quick": 400, "thorough": 780}[tier]
    probes = [-i - 1 for i in range(len(getattr(check, "PROBES", [])))]
    if replay:
        with open(replay) as f:
            rep = json.load(f)
        seed, tier = rep["seed"], rep["tier"]
        shards = [rep["batch"]]
    else:
        workers = min(int(os.environ.get("VP_JOBS", "8")), os.cpu_count() or 1)
        batch = getattr(check, "BATCH", 1 if getattr(check, "SIM", False) else 50)
        groups = [list(range(i, min(i + batch, n_cases))) for i in range(0, n_cases, batch)]
        shards = [[] for _ in range(workers)]
        for i, p in enumerate(probes):
            shards[i % workers].append(p)
        for i, g in enumerate(groups):
            shards[i % workers] += g
        shards = [s for s in shards if s]
    procs = [launch(check, {"id": check_id, "seed": seed, "tier": tier, "indexes": s, "wall": wall}, work, n)
             for n, s in enumerate(shards)]
    results, trouble = [], []
    for p, out, log in procs:
        try:
            p.wait(wall + (300 if tier == "quick" else 500))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            trouble.append("worker exceeded its wall-clock limit")
        lines = []
        if os.path.exists(out):
            with open(out) as f:
                lines = [json.loads(x) for x in f if x.strip()]
        if not lines:
            with open(log, errors="replace") as f:
                trouble.append("worker produced nothing: " + f.read()[-3000:])
        results += lines
    return decide(check_id, check, tier, seed, t0, work, results, trouble, replay)


def decide(check_id, check, tier, seed, t0, work, results, trouble, replay):
    viol, counters, findings, sigs, samples = [], {}, {}, set(), []
    evaluations = nontrivial = 0
    harness = []
    for r in results:
        if "batch_done" in r:
            continue
        if "harness" in r:
            harness.append(r["harness"])
            continue
        if r.get("cpu_limit"):
            viol.append((r["index"], {"key": "nontermination", "msg": f"a case used more than the CPU limit; a "
                         f"normal one needs a small fraction of it; stack:\n{r['stack']}"}, [r["index"]]))
            continue
        if "died" in r:
            if r["died"] is None:
                trouble.append("a case was killed at the wall-clock limit")
            elif r["died"] == -1:
                viol.append((r["index"], {"key": "aborted", "msg": "the run was aborted by an uncaught exception or "
                             "an unexpected end of simulation:\n" + r["tail"][-3000:]}, r["batch"]))
            elif os.WIFEXITED(r["died"]) and os.WEXITSTATUS(r["died"]) in (3, 4):
                pass                                     # reported by the child itself
            else:
                trouble.append(f"a case's process ended with status {r['died']}: {r['tail'][-1000:]}")
            continue
        evaluations += 1
        if r["nontrivial"] and r["sig"] not in sigs:
            sigs.add(r["sig"])
        nontrivial += bool(r["nontrivial"])
        for k, v in r["counters"].items():
            if k == "_harness_error":
                harness.append(v)
            else:
                counters[k] = counters.get(k, 0) + v
        findings.update(r["findings"])
        for v in r["violations"]:
            viol.append((r["index"], v, r["batch"] or [r["index"]]))
        if len(samples) < 3 and r["index"] >= 0 and r["nontrivial"]:
            s = r["sample"]
            samples.append(s if len(json.dumps(s, default=repr)) < 3000 else json.dumps(s, default=repr)[:3000])
    known = load_known(check_id)
    status = 0
    for fid in sorted(findings):
        if fid in known:
            print(f"KNOWN-FINDING: property={check_id} {fid}: {known[fid]['what']}")
        else:
            viol.append((-1, {"key": fid, "msg": findings[fid]}, [-1]))
    need = getattr(check, "REQUIRE", {})
    missing = {k: (counters.get(k, 0), v) for k, v in need.items() if counters.get(k, 0) < v}
    evidence = {
        "property": check_id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evaluations, "distinct_nontrivial": len(sigs),
                     "rule": check.RULE, "samples": samples or ["none"], "exhaustive": False,
                     "observed": dict(sorted(counters.items())),
                     "known_findings_seen": sorted(findings)},
        "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol)}
    if not replay:
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", check_id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=repr)
    if viol:
        status = 1
        rdir = os.path.join(HOME, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = {}
        for index, v, batch in viol:
            seen.setdefault(v["key"], []).append((index, v, batch))
        for key, lst in seen.items():
            index, v, batch = lst[0]
            path = os.path.join(rdir, f"{check_id}-{''.join(c if c.isalnum() else '_' for c in key)[:40]}.json")
            if not replay:
                with open(path, "w") as f:
                    json.dump({"property": check_id, "seed": seed, "tier": tier, "batch": batch, "index": index,
                               "violation": v, "times_seen": len(lst),
                               "rerun": f"python3 /verif/run_check.py {check_id} --replay {path}"}, f, indent=1, default=repr)
            print(f"  [{key}] seen {len(lst)}x; first in case {index}: {v['msg'][:1500]}")
            if v.get("witness"):
                print("    witness:", json.dumps(v["witness"], default=repr)[:1500])
            print(f"VIOLATION property={check_id} replay={replay or path}")
        for h in (harness + trouble)[:3]:
            print("  also inconclusive:", h[:600])
    elif harness or trouble or missing or not evaluations:
        status = 2
        for h in (harness + trouble)[:5]:
            print("INCONCLUSIVE:", h)
        if missing and not replay:
            print("INCONCLUSIVE: monitors under-reached (seen, needed):", missing)
        if replay:
            status = 2 if harness or trouble else 0
    print(f"{check_id} {tier} seed={seed}: {evaluations} cases, {len(sigs)} distinct, "
          f"{len(viol)} violations, {evidence['wall_s']} s -> exit {status}")
    return status
