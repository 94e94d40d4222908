"""Runs batches of cases of one check in forked children, inside a plain Python process or
inside a simulation (forked at simulation time 0). Results go to a JSON-lines file."""
import gc
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

from .monitor import Monitor

CPU_LIMIT = int(os.environ.get("VP_CPU_LIMIT", "60"))      # seconds of CPU per batch
WALL_LIMIT = 400


def load(check_id):
    return importlib.import_module("vp.checks." + check_id.lower())


def case_rng(seed, check_id, index):
    return random.Random(f"{seed}/{check_id}/{index}")


def make_case(check, spec, index):
    probes = getattr(check, "PROBES", [])
    if index < 0:
        return dict(probes[-index - 1])
    return check.gen(case_rng(spec["seed"], spec["id"], index), spec["tier"])


def describe_exc(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-8:]
    return f"{type(e).__name__}: {e}", where


def library_exc(e):
    """True when the exception was raised in (or below) a frame of the library."""
    return any("/src/uvm/" in f.filename for f in traceback.extract_tb(e.__traceback__))


class Dropped:
    """Notes library coroutines that were created and never awaited."""

    def __init__(self):
        self.seen = []

    def __enter__(self):
        self._old = warnings.showwarning
        warnings.simplefilter("always", RuntimeWarning)
        warnings.showwarning = self.show
        return self

    def show(self, message, category, filename, lineno, *a, **k):
        if "was never awaited" in str(message):
            self.seen.append(str(message))

    def __exit__(self, *a):
        gc.collect()
        warnings.showwarning = self._old


def result(mon, index, case, case_s):
    return {"index": index, "violations": mon.violations, "counters": mon.counters,
            "findings": mon.findings, "sig": mon.signature(), "nontrivial": bool(mon.nontrivial),
            "sample": mon.sample if mon.sample is not None else case, "s": round(case_s, 4)}


def before_child(out_fd, indexes):
    """In the child: CPU limit whose expiry is itself a recorded observation."""
    state = {"index": indexes[0]}

    def on_cpu(signum, frame):
        stack = "".join(traceback.format_stack(frame)[-12:])
        os.write(out_fd, (json.dumps({"index": state["index"], "cpu_limit": True, "stack": stack[-3000:]}) + "\n").encode())
        os._exit(3)
    signal.signal(signal.SIGXCPU, on_cpu)
    used = resource.getrusage(resource.RUSAGE_SELF)
    base = int(used.ru_utime + used.ru_stime)
    resource.setrlimit(resource.RLIMIT_CPU, (base + CPU_LIMIT, base + CPU_LIMIT + 20))
    return state


def wait_child(pid, wall=WALL_LIMIT):
    end = time.monotonic() + wall
    pause = 0.0005
    while True:
        got, status = os.waitpid(pid, os.WNOHANG)
        if got:
            return status
        if time.monotonic() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return None
        time.sleep(pause)
        pause = min(pause * 1.5, 0.02)


def guarded(mon, fn):
    """Runs fn; an exception out of it is an observation."""
    try:
        return fn()
    except Exception as e:        # noqa
        note_exc(mon, e)


def note_exc(mon, e):
    text, where = describe_exc(e)
    if library_exc(e):
        mon.violate("exception", f"unexpected exception from the library: {text}", where=where)
    else:
        mon.count("harness_errors")
        mon.counters["_harness_error"] = f"{text} at {where}"


def run_plain(spec):
    """Worker main for checks without simulation."""
    import uvm      # noqa: once, before the children are forked
    check = load(spec["id"])
    if hasattr(check, "setup"):
        check.setup()
    batch = getattr(check, "BATCH", 50)
    out_fd = os.open(spec["out"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    stop = time.monotonic() + spec["wall"]
    idx = list(spec["indexes"])
    gc.freeze()
    while idx and time.monotonic() < stop:
        now, idx = idx[:batch], idx[batch:]
        if now[0] < 0:                       # probes run alone
            now, idx = now[:1], now[1:] + idx
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                log = os.open(spec["out"] + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(log, 1)
                os.dup2(log, 2)
                state = before_child(out_fd, now)
                for i in now:
                    state["index"] = i
                    case = make_case(check, spec, i)
                    mon = Monitor(case)
                    t = time.monotonic()
                    guarded(mon, lambda: check.run(case, mon))
                    r = result(mon, i, case, time.monotonic() - t)
                    r["batch"] = now[:now.index(i) + 1] if mon.violations else None
                    os.write(out_fd, (json.dumps(r, default=repr) + "\n").encode())
            except BaseException:
                os.write(out_fd, (json.dumps({"index": now[0], "harness": traceback.format_exc()[-3000:]}) + "\n").encode())
                code = 4
            finally:
                os._exit(code)
        status = wait_child(pid)
        if status is None or status:
            note_status(out_fd, spec, now, status)
    os.close(out_fd)


def note_status(out_fd, spec, now, status):
    tail = ""
    try:
        with open(spec["out"] + ".log", errors="replace") as f:
            tail = f.read()[-4000:]
    except OSError:
        pass
    os.write(out_fd, (json.dumps({"index": now[0], "died": status, "batch": now, "tail": tail}) + "\n").encode())


if __name__ == "__main__":
    with open(sys.argv[1]) as f:
        run_plain(json.load(f))
