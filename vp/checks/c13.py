"""The oracle replays the trigger/reset history: it knows at every instant which waits must have been released, which may not
be, the on/off state, trigger time, data, waiter count and which callbacks must run. Deliberately unspecified (the UVM
definition leaves it so): what happens to processes waiting for a trigger when the event is reset without wake-up, and the
waiter count while processes wait for the opposite state across such a reset or trigger."""
from vp.tasks import spawn
from cocotb.triggers import Timer

from vp.clock import Clock

SIM = True
BATCH = 20
CASES = {"quick": 1600, "thorough": 40000}
TECHNIQUE = "runtime monitoring: online trace checker of event waits, triggers, resets and callbacks against a state model"
LEVEL_NOTE = "Random concurrent scripts on the real event in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("2-6 processes run random scripts of waits (trigger, persistent trigger, on, off, with data), triggers, resets, callback "
        "(de)registrations and kill+cancel with delays (0 most often) on one event; non-trivial: a blocked wait was released; "
        "distinct: hash of the log of completed calls")
REQUIRE = {"triggers": 2000, "vetoed": 15, "released_trigger": 500, "released_ptrigger": 200, "released_on": 100,
           "released_off": 100, "ptrigger_same_slice": 50, "resets": 300, "cancels": 50, "pre_calls": 500, "waiter_counts": 1000}
ASSUMPTIONS = ["a cocotb Event/Timer behave as documented"]
OPS = ["wait_trigger", "wait_trigger", "wait_ptrigger", "wait_trigger_data", "wait_ptrigger_data", "wait_on", "wait_off",
       "trigger", "trigger", "trigger", "reset", "reset_wakeup", "addcb", "delcb", "kill"]


def gen(rng, tier):
    procs = []
    for p in range(rng.randint(2, 6)):
        role = rng.choice(["waiter", "any", "driver"]) if p else "driver"
        script = []
        for _ in range(rng.randint(2, 10 if tier == "quick" else 25)):
            pool = [o for o in OPS if role == "any" or (o.startswith("wait")) == (role == "waiter")]
            op = rng.choice(pool)
            if op in ("addcb", "delcb", "kill") and rng.random() < .5:
                op = "trigger"
            script.append([rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 8)]), op, rng.randrange(100)])
        procs.append(script)
    return {"procs": procs, "veto": rng.random() < .3}


async def run(case, mon):
    from uvm.base.uvm_event import UVMEvent
    ev = UVMEvent("ev")
    now = Clock()
    st = {"on": False, "time": 0, "data": None, "slice": None, "exact": True}
    pend, cblog, cbs = {}, [], []

    class Cb:
        def __init__(self, n, veto):
            self.n, self.veto = n, veto

        def pre_trigger(self, e, data):
            cblog.append(("pre", self.n, data, e is ev))
            return self.veto(data)

        def post_trigger(self, e, data):
            cblog.append(("post", self.n, data, e is ev))
    vetoes = [lambda d: False, lambda d: 0, lambda d: isinstance(d, tuple) and d[1] % 3 == 0,
              lambda d: int(isinstance(d, tuple) and d[1] % 4 == 1)]

    def wake(kinds, must=True):
        for w in pend.values():
            if w["kind"] in kinds:
                w["may"] = True
                w["must"] = w["must"] or (must and not w["orphan"])

    def recount():
        if not pend:
            st["exact"] = True

    def do_trigger(data):
        cblog.clear()
        ev.trigger(data)
        veto = False
        want = []
        for c in cbs:
            want.append(("pre", c.n, data, True))
            veto = bool(c.veto(data)) or veto
        if not veto:
            want += [("post", c.n, data, True) for c in cbs]
        mon.count("pre_calls", len(cbs))
        mon.equal(cblog, want, "callbacks", f"callbacks run by a trigger at {now()}")
        if veto:
            mon.count("vetoed")
            return
        mon.count("triggers")
        st.update(on=True, time=now.abs(), data=data, slice=now())
        wake(("trigger", "ptrigger"))
        wake(("on",), must=False)
        if any(w["kind"] == "off" or w["orphan"] for w in pend.values()):
            st["exact"] = False
        elif all(w["must"] or w["kind"] == "on" for w in pend.values()):
            st["exact"] = True

    def do_reset(wakeup):
        mon.count("resets")
        ev.reset(wakeup)
        st.update(on=False, time=0, slice=None)
        if wakeup:
            wake(("trigger", "ptrigger"))
        else:
            for w in pend.values():
                if w["kind"] in ("trigger", "ptrigger") and not w["must"]:
                    w["orphan"] = True
        wake(("off",), must=False)
        if any((w["kind"] == "on" and not st["on"]) or w["orphan"] for w in pend.values()):
            st["exact"] = False

    async def wait_op(p, op, arg):
        kind = op[5:].replace("_data", "")
        instant = (kind == "on" and st["on"]) or (kind == "off" and not st["on"]) or \
            (kind == "ptrigger" and st["slice"] == now())
        w = {"kind": kind, "t": now(), "may": instant, "must": instant, "orphan": False, "counted": not instant}
        pend[p] = w
        got = None
        if op == "wait_trigger":
            await ev.wait_trigger()
        elif op == "wait_ptrigger":
            await ev.wait_ptrigger()
        elif op == "wait_trigger_data":
            got = await ev.wait_trigger_data()
        elif op == "wait_ptrigger_data":
            lst = []
            got = await ev.wait_ptrigger_data(lst)
            mon.equal(lst, [got], "data-list", "data appended by wait_ptrigger_data")
        elif op == "wait_on":
            await ev.wait_on(bool(arg % 2))
        else:
            await ev.wait_off(bool(arg % 2))
        pend.pop(p)
        mon.event(op, p, now() - w["t"])
        mon.check(w["may"], "early", f"{op} of p{p} called at {w['t']} returned at {now()} although nothing released it")
        if op.endswith("_data"):
            mon.equal(got, st["data"], "wait-data", f"data returned by {op}")
        if instant:
            mon.check(w["t"] == now(), "late", f"{op} with the condition met at {w['t']} returned at {now()}")
            if kind == "ptrigger":
                mon.count("ptrigger_same_slice")
        else:
            mon.count("released_" + kind)

    async def proc(p, script):
        for delay, op, arg in script:
            if delay:
                await Timer(delay, "NS")
            if op.startswith("wait"):
                await wait_op(p, op, arg)
            elif op == "trigger":
                do_trigger(("d", arg) if arg % 3 else None)
            elif op.startswith("reset"):
                do_reset(op == "reset_wakeup")
            elif op == "addcb":
                c = Cb(arg, vetoes[arg % 4] if case["veto"] else vetoes[arg % 2])
                front = bool(arg & 8)
                ev.add_callback(c, append=not front)
                cbs.insert(0 if front else len(cbs), c)
            elif op == "delcb":
                if cbs:
                    ev.delete_callback(cbs.pop(arg % len(cbs)))
            elif op == "kill":
                victims = [q for q, w in pend.items() if w["counted"] and not w["may"] and not w["orphan"] and w["t"] != now()]
                if victims and st["exact"]:
                    q = victims[arg % len(victims)]
                    tasks[q].kill()
                    pend.pop(q)
                    killed.add(q)
                    ev.cancel()
                    mon.count("cancels")
    killed = set()
    tasks = [spawn(mon, proc(p, s)) for p, s in enumerate(case["procs"])]
    await Timer(500, "PS")
    idle = 0
    while now() < 200 and idle < 12:
        last = mon.signature()
        for p, w in pend.items():
            mon.check(not w["must"], "not-released", f"wait for {w['kind']} by p{p} called at {w['t']} is still blocked at "
                      f"{now()} although it was released")
            if w["kind"] in ("on", "off"):
                mon.check(st["on"] != (w["kind"] == "on"), "not-released",
                          f"wait_{w['kind']} by p{p} still blocked at {now()} while the event is {w['kind']}")
        mon.equal(bool(ev.is_on()), st["on"], "state", f"is_on at {now()}")
        mon.equal(bool(ev.is_off()), not st["on"], "state", f"is_off at {now()}")
        mon.equal(ev.get_trigger_time(), st["time"], "trigger-time", f"get_trigger_time at {now()}")
        mon.equal(ev.get_trigger_data(), st["data"], "trigger-data", f"get_trigger_data at {now()}")
        recount() if not pend and ev.get_num_waiters() == 0 else None
        if st["exact"]:
            mon.count("waiter_counts")
            mon.equal(ev.get_num_waiters(), len(pend), "num-waiters", f"get_num_waiters at {now()}, waiting: {pend}")
        if all(t.done() for t in tasks):
            break
        await Timer(500, "PS")
        await Timer(500, "PS")
        idle = idle + 1 if mon.signature() == last else 0
    for p, t in enumerate(tasks):
        if p in killed:
            continue
        if t.done():
            t.result()
        else:
            t.kill()
    mon.nontrivial = any(k.startswith("released_") for k in mon.counters)
