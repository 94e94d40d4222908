"""C33: TLM2 sockets, ports and times against the connections made and exact arithmetic.

Each case builds chains of blocking and non-blocking sockets and ports through a component hierarchy, calls every interface from
several tasks and compares what arrives where; wrong connections must be reported; times are kept as fractions next to the library's."""
import itertools
import zlib
from fractions import Fraction

from cocotb.triggers import Timer

SIM = True
BATCH = 20
CASES = {"quick": 1500, "thorough": 30000}
TECHNIQUE = "runtime monitoring: calls and returns at both ends of generated socket and port chains, reports of wrong connections, times against exact fractions"
LEVEL_NOTE = "Random chains, schedules and histories on the real classes; exploration, no claim beyond what ran."
RULE = ("1-4 chains of sockets or ports with 0-3 levels on either side and 5-25 calls from 1-3 tasks; 8-30 operations on times; non-trivial: a call passed an intermediate "
        "socket or port; distinct: hash of the calls seen")
REQUIRE = {"b": 2500, "fw": 1500, "bw": 1500, "passed": 5000, "overlapped": 500, "null_delays": 1200, "wrong": 400, "negative": 1200, "below_zero": 600, "time_incr": 2000,
           "time_decr": 1000, "time_set": 1000}
ASSUMPTIONS = ["Delays, transactions and phases are objects shared by both ends; what a target does to them is up to it.", "Times are compared to one part in 10^9."]
_ids = itertools.count()


def gen(rng, tier):
    chains = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["b", "b", "nb", "nb", "bport", "fwport", "bwport"])
        chains.append({"kind": kind, "up": rng.choice([0, 0, 1, 2, 3]), "down": rng.choice([0, 0, 1, 2, 3]), "imp": rng.random() < .4, "bwimp": rng.random() < .4,
                       "more": rng.choice([0, 0, 1, 2]) if kind in ("b", "bport", "fwport", "bwport") else 0, "order": rng.random()})
    ops = []
    for _ in range(rng.randint(5, 25)):
        ops.append([rng.randrange(len(chains)), rng.randrange(3), rng.randrange(3), rng.choice([0, 0, 1, 2]), rng.choice(["", "", "", "", "", "null"]), rng.randrange(1000)])
    wrong = [[rng.choice(["bi-nt", "ni-bt", "bpi-nt", "npi-bt", "bpt-npt", "npt-bt", "bt", "nt", "open-bi", "open-ni"])] for _ in range(rng.choice([0, 0, 1, 2]))]
    times = []
    for _ in range(rng.randint(8, 30)):
        op = rng.choice(["incr", "incr", "decr", "set", "reset", "get", "abs", "neg"])
        times.append([op, rng.choice([0, 1, 5, 12.5, 1000, rng.randint(0, 10 ** 6)]), rng.choice([1, 10, 1000, 0.001]), rng.choice([-9, -9, -12, -6, -3])])
    return {"chains": chains, "ops": ops, "tasks": rng.choice([1, 2, 3]), "wrong": wrong, "times": times, "res": rng.choice([0, 0, -9, -12, -15])}


async def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.tlm2.uvm_tlm2_exports import UVMTLMBTransportExport, UVMTLMNbTransportBwExport, UVMTLMNbTransportFwExport
    from uvm.tlm2.uvm_tlm2_ifs import uvm_tlm_phase_e, uvm_tlm_sync_e
    from uvm.tlm2.uvm_tlm2_imps import UVMTLMBTransportImp, UVMTLMNbTransportBwImp, UVMTLMNbTransportFwImp
    from uvm.tlm2.uvm_tlm2_ports import UVMTLMBTransportPort, UVMTLMNbTransportBwPort, UVMTLMNbTransportFwPort
    from uvm.tlm2.uvm_tlm2_time import UVMTLMTime
    import uvm.tlm2.uvm_tlm2_sockets as so
    from vp.monitor import Output
    from vp.tasks import spawn
    tag = next(_ids)
    log = []
    syncs, phases = list(uvm_tlm_sync_e), list(uvm_tlm_phase_e)

    class End:
        """one end of a chain: what it is asked is logged; what it answers depends on the transaction"""

        def __init__(self, who):
            self.who = who

        async def b_transport(self, t, delay):
            log.append(("b", self.who, t, None, delay))
            mon.event("b", self.who[1:])
            if t["wait"]:
                await Timer(t["wait"], "NS")
            t["seen"] = self.who

        def nb_transport_fw(self, t, p, delay):
            log.append(("fw", self.who, t, p, delay))
            mon.event("fw", self.who[1:])
            t["seen"] = self.who
            return syncs[t["ret"]]

        def nb_transport_bw(self, t, p, delay):
            log.append(("bw", self.who, t, p, delay))
            mon.event("bw", self.who[1:])
            t["seen"] = self.who
            return syncs[t["ret"]]

    class Comp(UVMComponent):
        def __init__(self, name, parent):
            super().__init__(name, parent)
            self.end = End(("comp", name))

        async def b_transport(self, t, delay):
            await self.end.b_transport(t, delay)

        def nb_transport_fw(self, t, p, delay):
            return self.end.nb_transport_fw(t, p, delay)

        def nb_transport_bw(self, t, p, delay):
            return self.end.nb_transport_bw(t, p, delay)
    with Output() as out:
        top = UVMComponent(f"tlm{tag}", None)
        links = []
        callers = []        # (port to call, interface, end that must be reached, passed)
        for k, c in enumerate(case["chains"]):
            kind = c["kind"]
            mid_i, mid_t, first, last = {
                "b": (so.UVMTLMBPassthroughInitiatorSocket, so.UVMTLMBPassthroughTargetSocket, so.UVMTLMBInitiatorSocket, so.UVMTLMBTargetSocket),
                "nb": (so.UVMTLMNbPassthroughInitiatorSocket, so.UVMTLMNbPassthroughTargetSocket, so.UVMTLMNbInitiatorSocket, so.UVMTLMNbTargetSocket),
                "bport": (UVMTLMBTransportPort, UVMTLMBTransportExport, UVMTLMBTransportPort, UVMTLMBTransportImp),
                "fwport": (UVMTLMNbTransportFwPort, UVMTLMNbTransportFwExport, UVMTLMNbTransportFwPort, UVMTLMNbTransportFwImp),
                "bwport": (UVMTLMNbTransportBwPort, UVMTLMNbTransportBwExport, UVMTLMNbTransportBwPort, UVMTLMNbTransportBwImp)}[kind]

            def nest(n, name):
                comps, p = [], top
                for i in range(n + 1):
                    p = Comp(f"{name}{i}", p)
                    comps.append(p)
                return comps
            # the target side: exports of ancestors lead down to it
            tc = nest(c["down"], f"t{k}_")
            if kind in ("b", "nb"):
                own = End(("own", k))
                end = own if c["imp"] else tc[-1].end
                target = last(f"last{k}", tc[-1], *((own,) if c["imp"] else ()))
            else:
                end = tc[-1].end
                target = last(f"last{k}", tc[-1])
            down = [mid_t(f"pass{k}_{i}", x) for i, x in enumerate(tc[:-1])] + [target]
            links += zip(down, down[1:])
            for q in range(1 + c["more"]):
                ic = nest(c["up"], f"i{k}_{q}_")
                if kind == "nb":
                    back = Comp(f"b{k}", ic[-1]) if c["bwimp"] else ic[-1]
                    ini = first(f"first{k}", ic[-1], *((back,) if c["bwimp"] else ()))
                    bend = back.end
                else:
                    ini, bend = first(f"first{k}", ic[-1]), None
                up = [ini] + [mid_i(f"pass{k}_{i}", x) for i, x in reversed(list(enumerate(ic[:-1])))]
                links += zip(up, up[1:])
                links.append((up[-1], down[0]))
                iface = {"b": "b", "bport": "b", "nb": "fw", "fwport": "fw", "bwport": "bw"}[kind]
                callers.append((k, ini, iface, end, len(up) + len(down) - 2))
                if kind == "nb":
                    callers.append((k, target, "bw", bend, len(up) + len(down) - 2))
        # any order of connecting
        links.sort(key=lambda x: zlib.crc32(f"{x[0].get_full_name().split('.', 1)[1]} {case['chains'][0]['order']}".encode()))
        for a, b in links:
            a.connect(b)
        top.do_resolve_bindings()
        reps, _ = out.take()
        mon.check(not [r for r in reps if r[0] in ("UVM_ERROR", "UVM_FATAL")], "connect", lambda: f"legal connections reported {[r[2] for r in reps if r[0] != 'UVM_WARNING'][:2]}")
        passed = [0]

        async def call(n, op):
            mine = [x for x in callers if x[0] == op[0]]
            k, port, iface, end, mids = mine[op[5] % len(mine)]
            t = {"n": n, "wait": op[3], "ret": op[1], "seen": None}
            p = [phases[op[2]]]
            delay = None if op[4] else UVMTLMTime("delay")
            before = len(log)
            out.take()
            if iface == "b":
                await port.b_transport(t, delay)
                want = ("b", end.who, t, None, delay)
            else:
                r = (port.nb_transport_fw if iface == "fw" else port.nb_transport_bw)(t, p, delay)
                want = (iface, end.who, t, p, delay)
                mon.check(r is (syncs[op[1]] if delay is not None else uvm_tlm_sync_e.UVM_TLM_COMPLETED), "returned", f"a non-blocking transport call returned {r}", iface=iface)
            mine = [e for e in log if e[2] is t]
            if delay is None:
                reps, _ = out.take()
                mon.count("null_delays")
                mon.equal((mine, t["seen"]), ([], None), "null_reached", "calls that arrived from a transport call without a delay")
                mon.check([r[1] for r in reps if r[0] == "UVM_ERROR"] == ["UVM/TLM/NULLDELAY"], "null_report", lambda: f"reports of a transport call without a delay: {reps[:3]}")
                return
            mon.count(iface)
            mon.count("passed", mids > 0)
            passed[0] += mids > 0
            mon.check(len(mine) == 1 and mine[0][:2] == want[:2] and mine[0][4] is delay and (iface == "b" or mine[0][3] is p), "arrived",
                      lambda: f"a {iface} call arrived as {[e[:2] for e in mine]}, expected once at {want[:2]}", mids=mids)
            mon.equal(t["seen"], end.who, "seen", "what the target wrote when the call returned", iface=iface)
            mon.count("overlapped", len(log) - before > 1)

        async def task(mine):
            for n, op in mine:
                await call(n, op)
                if op[3]:
                    await Timer(1, "NS")
        ts = [spawn(mon, task([(n, op) for n, op in enumerate(case["ops"]) if n % case["tasks"] == j])) for j in range(case["tasks"])]
        for t in ts:
            await t.join()
        mon.equal(len(log), sum(not o[4] for o in case["ops"]), "calls", "calls that arrived in all")
        # wrong connections
        for q, (w,) in enumerate(case["wrong"]):
            x = Comp(f"w{q}", top)
            y = Comp(f"v{q}", top)
            out.take()
            a, _, b = w.partition("-")
            mk = {"bi": so.UVMTLMBInitiatorSocket, "ni": so.UVMTLMNbInitiatorSocket, "bpi": so.UVMTLMBPassthroughInitiatorSocket, "npi": so.UVMTLMNbPassthroughInitiatorSocket,
                  "bpt": so.UVMTLMBPassthroughTargetSocket, "npt": so.UVMTLMNbPassthroughTargetSocket, "bt": so.UVMTLMBTargetSocket, "nt": so.UVMTLMNbTargetSocket}
            if a == "open":
                mk[b]("s", x)
                x.do_resolve_bindings()
            elif not b:
                mk[a]("s", x).connect(mk["bt" if a == "bt" else "nt"]("s", y))
            else:
                mk[a]("s", x).connect(mk[b]("s", y))
            reps, _ = out.take()
            mon.count("wrong")
            mon.check(any(r[0] in ("UVM_ERROR", "UVM_FATAL") for r in reps), "unreported", f"a wrong connection ({w}) was not reported", what=w)
        # times
        old = UVMTLMTime.m_resolution
        if case["res"]:
            UVMTLMTime.set_time_resolution(float(f"1e{case['res']}"))
        tm = UVMTLMTime("t")
        UVMTLMTime.set_time_resolution(old)
        now = Fraction(0)           # seconds

        def close(got, want):
            want = float(want)
            return abs(got - want) <= 1e-9 * max(abs(want), 1e-9 * scale)
        scale = 1.0
        for op, v, scaled, e in case["times"]:
            secs, sf = float(f"1e{e}"), Fraction(10) ** e
            out.take()
            if op in ("incr", "decr", "neg"):
                # v is a number of units, each unit of `secs` seconds being `scaled` in the caller's time scale
                step = Fraction(v) / Fraction(scaled) * sf
                if op == "neg":
                    (tm.incr if v > 500 else tm.decr)(-v - 1.0, scaled, secs)
                    mon.count("negative")
                    mon.equal([r[1] for r in out.take()[0]], ["UVM/TLM/TIMENEG"], "negative", "reports of moving a time by a negative value")
                elif op == "incr":
                    tm.incr(v, scaled, secs)
                    now += step
                else:
                    near = abs(now - step) <= (now + step) / 10 ** 9
                    if near and now:
                        continue
                    tm.decr(v, scaled, secs)
                    reps = [r[1] for r in out.take()[0]]
                    mon.equal(reps, ["UVM/TLM/TOODECR"] if step > now else [], "too_far", "reports of decrementing a time")
                    mon.count("below_zero", step > now)
                    scale = max(scale, float(now) * 1e9)
                    now = max(now - step, Fraction(0))
            elif op == "set":
                tm.set_abstime(v, secs)
                now = Fraction(v) * sf
            elif op == "reset":
                tm.reset()
                now = Fraction(0)
            scale = max(scale, float(now) * 1e9) if op != "reset" else 1.0
            mon.count("time_" + op)
            mon.check(abs(tm.get_abstime(secs) - float(now / sf)) <= 1e-9 * (float(now / sf) + scale * 1e-9 / secs), "abstime",
                      lambda: f"after {op}: get_abstime({secs}) is {tm.get_abstime(secs)}, expected {float(now / sf)}", op=op)
            want = now * Fraction(scaled) / sf
            mon.check(abs(tm.get_realtime(scaled, secs) - float(want)) <= 1e-9 * (float(want) + scale * 1e-9 / secs * scaled), "realtime",
                      lambda: f"after {op}: get_realtime({scaled}, {secs}) is {tm.get_realtime(scaled, secs)}, expected {float(want)}", op=op)
        out.take()
    mon.distinct = hash(tuple(e[:2] + (e[2]["n"],) for e in log))
    mon.nontrivial = passed[0] > 0
