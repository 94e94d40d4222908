"""cocotb module: forks a child per batch of cases at simulation time 0; the child runs them."""
import gc
import json
import os
import sys
import time
import traceback

import cocotb
from cocotb.triggers import Timer, First, NullTrigger

sys.path.insert(0, os.environ["VP_HOME"])
from vp import exec as vx            # noqa: E402
from vp.monitor import Monitor       # noqa: E402


async def guarded(coro):
    """Keeps an exception as the result: a task that fails would end the simulation."""
    try:
        await coro
    except Exception as e:      # noqa
        return e


async def run_cases(dut, check, spec, now, out_fd):
    state = vx.before_child(out_fd, now)
    for i in now:
        state["index"] = i
        case = vx.make_case(check, spec, i)
        mon = Monitor(case)
        mon.dut = dut
        t = time.monotonic()

        def emit():
            r = vx.result(mon, i, case, time.monotonic() - t)
            r["batch"] = now[:now.index(i) + 1] if mon.violations else None
            os.write(out_fd, (json.dumps(r, default=repr) + "\n").encode())
        mon.emit = emit
        with vx.Dropped() as dropped:
            try:
                limit = getattr(check, "SIM_LIMIT_NS", 1000000)
                task = cocotb.start_soon(guarded(check.run(case, mon)))
                await First(task.join(), Timer(limit, "NS"))
                if not task.done():
                    mon.violate("stuck", f"the scenario did not complete within {limit} ns of simulation time"
                                + (f": {mon.waiting()}" if hasattr(mon, "waiting") else ""))
                    task.kill()
                else:
                    if isinstance(task.result(), Exception):
                        vx.note_exc(mon, task.result())
            except Exception as e:   # noqa
                vx.note_exc(mon, e)
        for msg in dropped.seen:
            mon.count("dropped_coroutines")
            if not getattr(check, "ALLOW_DROPPED", False):
                mon.violate("dropped-coroutine", msg)
        emit()


@cocotb.test()
async def vp_run(dut):
    with open(os.environ["VP_SPEC"]) as f:
        spec = json.load(f)
    import uvm      # noqa: once, before the children are forked
    check = vx.load(spec["id"])
    if hasattr(check, "setup"):
        check.setup()
    batch = getattr(check, "BATCH", 1)
    out_fd = os.open(spec["out"], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    stop = time.monotonic() + spec["wall"]
    idx = list(spec["indexes"])
    gc.freeze()
    while idx and time.monotonic() < stop:
        now, idx = idx[:batch], idx[batch:]
        if now[0] < 0:
            now, idx = now[:1], now[1:] + idx
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            log = os.open(spec["out"] + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            os.dup2(log, 1)
            os.dup2(log, 2)
            try:
                await run_cases(dut, check, spec, now, out_fd)
            except BaseException:
                os.write(out_fd, (json.dumps({"index": now[0], "harness": traceback.format_exc()[-3000:]}) + "\n").encode())
                os._exit(4)
            os.write(out_fd, (json.dumps({"batch_done": now[0]}) + "\n").encode())
            os._exit(0)
        status = vx.wait_child(pid)
        if status is None or status:
            vx.note_status(out_fd, spec, now, status)
        else:
            # a child that ends without saying so was ended by the simulator (uncaught exception)
            with open(spec["out"], "rb") as f:
                done = json.dumps({"batch_done": now[0]}).encode() in f.read()
            if not done:
                vx.note_status(out_fd, spec, now, -1)
    os.close(out_fd)
