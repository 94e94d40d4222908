"""C08: TLM FIFOs."""
from vp.boundedq import QueueMonitor, gen_scripts, play

SIM = True
BATCH = 12
CASES = {"quick": 1000, "thorough": 24000}
TECHNIQUE = "runtime monitoring: online queue monitor + offline FIFO-linearizability checker over TLM FIFO call logs"
LEVEL_NOTE = ("Random process scripts run against the real FIFO component in a real cocotb simulation through direct calls, "
              "exports or connected ports; every call and every analysis-port publication is logged and judged against a "
              "bounded FIFO. Exploration: no claim beyond what ran.")
RULE = ("2-6 processes run random scripts of put/get/peek/try_*/flush with delays (0 most often) on one FIFO of size 0-4 or "
        "an analysis FIFO; non-trivial: at least two puts and one get completed; distinct: hash of the completed-call log")
REQUIRE = {"blocked_puts_released": 50, "blocked_gets_released": 50, "blocked_peeks_released": 20,
           "try_put_refused": 50, "try_get_refused": 50, "order_checked_items": 2000, "publications": 3000,
           "flushes": 50, "flushed_items": 30}
ASSUMPTIONS = ["a cocotb Event/Timer behave as documented", "calls return without consuming extra time steps"]
OPS = ["put", "put", "put", "get", "get", "peek", "try_put", "try_get", "try_peek"]


def gen(rng, tier):
    kind = rng.choice(["fifo", "fifo", "fifo", "analysis"])
    bound = 0 if kind == "analysis" else rng.choice([0, 1, 1, 2, 3, 4, 7])
    ops = OPS + (["flush"] if rng.random() < .5 else [])
    procs = gen_scripts(rng, bound, tier, ops)
    if kind == "analysis":
        procs = [[[d, "put" if o in ("put", "try_put") else o] for d, o in s] for s in procs]
    return {"kind": kind, "bound": bound, "procs": procs, "via": rng.choice(["direct", "export", "port"])}


async def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.tlm1 import UVMTLMFIFO, UVMTLMAnalysisFIFO, UVMPutPort, UVMGetPeekPort, UVMAnalysisPort
    from uvm.comps.uvm_subscriber import UVMSubscriber
    uid = run.n = getattr(run, "n", 0) + 1
    env = UVMComponent(f"env{uid}", None)
    fifo = UVMTLMAnalysisFIFO("fifo", env) if case["kind"] == "analysis" else UVMTLMFIFO("fifo", env, case["bound"])
    pubs = {"put": [], "get": []}

    class Sub(UVMSubscriber):
        def __init__(self, name, parent, which):
            super().__init__(name, parent)
            self.which = which

        def write(self, t):
            pubs[self.which].append((qm.tick(), t))
    for which, ap in (("put", fifo.put_ap), ("get", fifo.get_ap)):
        ap.connect(Sub("sub_" + which, env, which).analysis_export)
        ap.resolve_bindings()
    qm = QueueMonitor(mon, case["bound"], {"num": fifo.used, "is_empty": fifo.is_empty, "is_full": fifo.is_full,
                                           "can_put": fifo.can_put, "can_get": fifo.can_get, "can_peek": fifo.can_peek})
    mon.equal(fifo.size(), case["bound"], "size", "size()")
    pin, pout = fifo, fifo
    if case["via"] == "export":
        pin, pout = fifo.put_export, fifo.get_peek_export
    elif case["via"] == "port":
        user = UVMComponent("user", env)
        pin, pout = UVMPutPort("pp", user), UVMGetPeekPort("gp", user)
        pin.connect(fifo.put_export)
        pout.connect(fifo.get_peek_export)
        pin.resolve_bindings()
        pout.resolve_bindings()
        qm.q.update(can_put=pin.can_put, can_get=pout.can_get, can_peek=pout.can_peek)
    if case["kind"] == "analysis":
        src = UVMAnalysisPort("src", UVMComponent("writer", env))
        src.connect(fifo.analysis_export)
        src.resolve_bindings()

    async def put(it):
        if case["kind"] == "analysis":
            t = qm.now
            src.write(it)
            mon.check(qm.now == t, "analysis-write-time", "an analysis write consumed time")
        else:
            await pin.put(it)

    async def blocking(fn):
        out = []
        res = await fn(out)
        mon.equal(len(out), 1, "outlist", "items appended to the output list of a blocking call")
        if case["via"] == "direct":
            mon.check(bool(out) and res is out[0], "outlist-same", "output list and return value differ")
        return out[0] if out else None

    def trying(fn):
        out = []
        ok = fn(out)
        mon.equal(len(out), 1 if ok else 0, "outlist", "items appended by a try call")
        return ok, (out[0] if out else None)

    def flush():
        mon.count("flushes")
        before = len(pubs["get"])
        n = qm.level()
        fifo.flush()
        mon.equal(fifo.used(), 0, "flush-empties", "used after flush")
        mon.check(fifo.is_empty(), "flush-empties", "is_empty after flush")
        mon.equal(len(pubs["get"]) - before, n, "flush-publishes", "items published by flush")
        for _, it in list(pubs["get"])[before:]:
            rec = {"proc": "flush", "op": "get", "inv": qm.tick(), "item": None, "t": qm.now, "flushed": 1}
            qm.returned(rec, it)
            mon.count("flushed_items")
        return False, None
    adapter = {"put": put, "get": lambda: blocking(pout.get), "peek": lambda: blocking(pout.peek), "try_put": pin.try_put,
               "try_get": lambda: trying(pout.try_get), "try_peek": lambda: trying(pout.try_peek), "flush": flush}
    await play(case, mon, adapter, qm)
    while True:
        want = qm.level() > 0
        rec = qm.invoke("drain", "try_get")
        ok, res = trying(pout.try_get)
        mon.equal(bool(ok), want, "drain", "try_get while draining")
        if not ok or not want:
            break
        qm.returned(rec, res)
    qm.order()
    # every successful put and get published once, while it was in progress, in the same order
    for which, recs in (("put", qm.puts), ("get", [g for g in qm.gets if not g.get("flushed")])):
        seen = {}
        for s, it in pubs[which]:
            mon.count("publications")
            mon.check(id(it) not in seen, "published-twice", f"{it!r} was published twice by {which}_ap")
            seen[id(it)] = s
        for r in recs:
            s = seen.get(id(r["item"]))
            mon.check(s is not None and r["inv"] < s < r["ret"], "publication",
                      f"{which} of {r['item']!r} was not published on {which}_ap during the call")
        total = len(qm.puts if which == "put" else qm.gets)
        mon.equal(len(pubs[which]), total, "publication-count", f"publications on {which}_ap")
    o = {id(it): s for s, it in pubs["put"]}
    order = [o.get(id(it), 0) for _, it in pubs["get"]]
    mon.check(order == sorted(order), "published-order", "items were got in another order than they entered")
