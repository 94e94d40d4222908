"""C09: mailbox."""
from vp.boundedq import QueueMonitor, gen_scripts, play

SIM = True
BATCH = 20
CASES = {"quick": 1600, "thorough": 40000}
TECHNIQUE = "runtime monitoring: online queue monitor + offline FIFO-linearizability checker over mailbox call logs"
LEVEL_NOTE = ("Randomly generated process scripts run on the real mailbox in a real cocotb simulation; each call is logged "
              "and judged against a bounded FIFO at every quiescent instant. Exploration: no claim beyond what ran.")
RULE = ("2-6 processes run random scripts of put/get/peek/try_* with delays (0 most often) on one mailbox with bound 0-4; "
        "non-trivial: at least two puts and one get completed; distinct: by the hash of the completed-call log")
REQUIRE = {"blocked_puts_released": 50, "blocked_gets_released": 50, "blocked_peeks_released": 20,
           "try_put_refused": 50, "try_get_refused": 50, "order_checked_items": 2000}
ASSUMPTIONS = ["a cocotb Event/Timer behave as documented", "calls return without consuming extra time steps"]
OPS = ["put", "put", "get", "get", "peek", "try_put", "try_get", "try_peek"]


def gen(rng, tier):
    bound = rng.choice([0, 1, 1, 2, 3, 4])
    return {"bound": bound, "procs": gen_scripts(rng, bound, tier, OPS), "outlist": rng.random() < .5}


async def run(case, mon):
    from uvm.base.uvm_mailbox import UVMMailbox
    mb = UVMMailbox(case["bound"])

    async def blocking(fn):
        if case["outlist"]:
            out = []
            res = await fn(out)
            mon.equal(len(out), 1, "outlist", "items appended to the output list")
            mon.check(bool(out) and out[-1] is res, "outlist-same", "output list and return value differ")
            return res
        return await fn()

    def trying(fn):
        out = []
        ok = fn(out)
        mon.equal(len(out), 1 if ok else 0, "outlist", "items appended by a try call")
        return ok, (out[0] if out else None)
    qm = QueueMonitor(mon, case["bound"], {"num": mb.num, "can_put": mb.can_put, "can_get": mb.can_get})
    await play(case, mon, {
        "put": mb.put, "get": lambda: blocking(mb.get), "peek": lambda: blocking(mb.peek), "try_put": mb.try_put,
        "try_get": lambda: trying(mb.try_get), "try_peek": lambda: trying(mb.try_peek)}, qm)
    # drain: everything put and not got comes out, once
    while True:
        want = qm.level() > 0
        rec = qm.invoke("drain", "try_get")
        ok, res = trying(mb.try_get)
        mon.equal(bool(ok), want, "drain", "try_get while draining")
        if not ok or not want:
            break
        qm.returned(rec, res)
    qm.order()
