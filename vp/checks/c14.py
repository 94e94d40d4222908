"""The oracle counts arrivals: it knows for every process waiting at the barrier when it must be let through and checks at
each quiescent instant that nobody else was. Unspecified on purpose: the later fate of processes still waiting when the
barrier is reset without wake-up (they must only not be let through by that reset or by arrivals after it)."""
from cocotb.triggers import Timer

from vp.clock import Clock
from vp.tasks import spawn

SIM = True
BATCH = 20
CASES = {"quick": 1600, "thorough": 40000}
TECHNIQUE = "runtime monitoring: online checker of barrier arrivals and releases against a counting model"
LEVEL_NOTE = "Random concurrent scripts on the real barrier in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("2-8 processes arrive repeatedly at one barrier with random delays (0 most often), mixed with threshold changes, resets, "
        "auto-reset changes and kill+cancel; non-trivial: at least one blocked process was released; distinct: hash of the log")
REQUIRE = {"released_by_arrival": 500, "released_by_threshold": 30, "released_by_reset": 30, "rounds": 500, "passed_open": 100,
           "cancels": 30, "threshold_1_passes": 20}
ASSUMPTIONS = ["a cocotb Event/Timer behave as documented"]


def gen(rng, tier):
    n = rng.randint(2, 8)
    procs = []
    steps = rng.randint(2, 8 if tier == "quick" else 20)
    mode = rng.choice(["rounds", "rounds", "mixed"])
    for p in range(n):
        script = []
        for _ in range(steps):
            op = "wait_for"
            if mode == "mixed" and rng.random() < .35:
                op = rng.choice(["reset", "reset_quiet", "threshold", "threshold", "auto", "kill"])
            script.append([rng.choice([0, 0, 1, 1, 2, rng.randint(0, 7)]), op, rng.randint(0, 60)])
        procs.append(script)
    return {"procs": procs, "threshold": rng.randint(1, n), "auto": rng.choice([1, 1, 1, 0]), "mode": mode}


async def run(case, mon):
    from uvm.base.uvm_barrier import UVMBarrier
    b = UVMBarrier("b", case["threshold"])
    now = Clock()
    if not case["auto"]:
        b.set_auto_reset(0)
    st = {"T": case["threshold"], "A": case["auto"], "open": False}
    pend, killed = {}, set()

    def live():
        return [w for w in pend.values() if not w["rel"] and not w["orphan"]]

    def release(why):
        if len(live()) > 1:
            mon.count("rounds")
        for w in live():
            w["rel"] = why
            w["trel"] = now()

    def reset(wakeup):
        st["open"] = False
        if wakeup:
            release("reset")
        else:
            for w in live():
                w["orphan"] = True

    async def proc(p, script):
        for delay, op, arg in script:
            if delay:
                await Timer(delay, "NS")
            if op == "wait_for":
                w = {"t": now(), "rel": None, "trel": None, "orphan": False}
                if st["open"]:
                    w["rel"], w["trel"] = "open", now()
                pend[p] = w
                if not st["open"] and len(live()) >= st["T"]:
                    if st["T"] <= 1:
                        mon.count("threshold_1_passes")
                    if not st["A"]:
                        st["open"] = True
                    release("arrival")
                await b.wait_for()
                pend.pop(p)
                mon.event("pass", p, w["rel"], now() - w["t"])
                mon.check(w["rel"] is not None, "early", f"p{p}, waiting since {w['t']}, was let through at {now()} with "
                          f"threshold {st['T']}, {len(live())} others waiting")
                if w["rel"]:
                    mon.check(w["trel"] == now(), "late", f"p{p} released at {w['trel']} proceeded at {now()}")
                    if w["rel"] == "open":
                        mon.count("passed_open")
                    elif w["t"] != now():
                        mon.count("released_by_" + w["rel"])
            elif op.startswith("reset"):
                reset(op == "reset")
                if op == "reset":
                    b.reset()
                else:
                    b.reset(0)
            elif op == "threshold":
                st["T"] = arg % 5 + 1
                if st["T"] <= len(live()):
                    st["open"] = False
                    release("threshold")
                b.set_threshold(st["T"])
                mon.equal(b.get_threshold(), st["T"], "threshold", "get_threshold")
            elif op == "auto":
                st["A"], st["open"] = arg % 2, False
                b.set_auto_reset(arg % 2)
            elif op == "kill":
                v = [q for q, w in pend.items() if not w["rel"] and not w["orphan"] and w["t"] != now()]
                if v:
                    q = v[arg % len(v)]
                    tasks[q].kill()
                    pend.pop(q)
                    killed.add(q)
                    b.cancel()
                    mon.count("cancels")
    tasks = [spawn(mon, proc(p, s)) for p, s in enumerate(case["procs"])]
    await Timer(500, "PS")
    idle = 0
    while now() < 200 and idle < 10:
        last = mon.signature()
        for p, w in pend.items():
            mon.check(not w["rel"], "not-released", f"p{p}, waiting since {w['t']} and released at {w['trel']} by "
                      f"{w['rel']}, is still blocked at {now()}")
        mon.equal(b.get_num_waiters(), len(live()), "num-waiters", f"get_num_waiters at {now()}")
        if all(t.done() for t in tasks):
            break
        await Timer(1, "NS")
        idle = idle + 1 if mon.signature() == last else 0
    for p, t in enumerate(tasks):
        if not t.done():
            t.kill()
    mon.nontrivial = any(k.startswith("released_by") for k in mon.counters)
