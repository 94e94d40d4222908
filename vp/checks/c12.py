"""Both directions of a channel are driven at once by random processes through exports, master/slave exports or connected
ports; each direction is judged as a bounded FIFO (see C08) and every publication on the channel's analysis ports is matched
to the put in progress. The library has no transport channel (uvm_tlm_transport_channel is not ported)."""
from vp.tasks import spawn

from vp.boundedq import QueueMonitor, gen_scripts, play

SIM = True
BATCH = 10
CASES = {"quick": 600, "thorough": 15000}
TECHNIQUE = "runtime monitoring: two online queue monitors + FIFO-linearizability checkers over request/response channel logs"
LEVEL_NOTE = "Random concurrent scripts on the real channel in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("2-6 processes per direction run random put/get/peek/try_* scripts on one request/response channel with sizes 0-4, "
        "accessed through exports, master/slave exports or ports; non-trivial: at least two puts and one get in a direction; "
        "distinct: hash of the completed-call log")
REQUIRE = {"blocked_puts_released": 50, "blocked_gets_released": 50, "order_checked_items": 2000, "publications": 2000}
ASSUMPTIONS = ["a cocotb Event/Timer behave as documented"]
OPS = ["put", "put", "put", "get", "get", "peek", "try_put", "try_get", "try_peek"]
ROUTES = ["plain", "role", "port", "roleport", "blocking"]


def gen(rng, tier):
    b = [rng.choice([0, 1, 1, 2, 4]), rng.choice([0, 1, 1, 2, 3])]
    return {"bounds": b, "default": rng.random() < .15, "procs": [gen_scripts(rng, b[k], tier, OPS) for k in (0, 1)],
            "routes": [rng.choice(ROUTES) for _ in range(4)],
            "pick": rng.getrandbits(20)}


def access(case, k, ch, host, t1):
    """(put side, get side) of direction k by the chosen routes."""
    name = ("request", "response")[k]
    role_put = (ch.master_export, ch.slave_export)[k]
    role_get = (ch.slave_export, ch.master_export)[k]
    put, get = getattr(ch, f"put_{name}_export"), getattr(ch, f"get_peek_{name}_export")
    pick = []
    for side, route in (("put", case["routes"][2 * k]), ("get", case["routes"][2 * k + 1])):
        plain, role = (put, role_put) if side == "put" else (get, role_get)
        if route == "plain":
            pick.append(plain)
        elif route == "blocking":
            kind = "put" if side == "put" else ("get", "peek", "get_peek")[case["pick"] // 2 % 3]
            pick.append(getattr(ch, f"{('blocking', 'nonblocking')[case['pick'] % 2]}_{kind}_{name}_export"))
        elif route == "role":
            kind = ("", "blocking_", "nonblocking_")[case["pick"] // 6 % 3]
            pick.append(getattr(ch, f"{kind}{'master' if (side == 'put') == (k == 0) else 'slave'}_export"))
        else:
            cls = (t1.UVMPutPort if side == "put" else t1.UVMGetPeekPort) if route == "port" else \
                (t1.UVMMasterPort if (side == "put") == (k == 0) else t1.UVMSlavePort)
            p = cls(f"{side}_{name}", host)
            p.connect(plain if route == "port" else role)
            pick.append(p)
    return pick


async def run(case, mon):
    import uvm.tlm1 as t1
    from uvm.base.uvm_component import UVMComponent
    from uvm.comps.uvm_subscriber import UVMSubscriber
    from vp.monitor import Output
    uid = run.n = getattr(run, "n", 0) + 1
    env = UVMComponent(f"env{uid}", None)
    host = UVMComponent("user", env)
    if case["default"]:
        case["bounds"] = [1, 1]
        ch = t1.UVMTLMReqRspChannel("ch", env)
    else:
        ch = t1.UVMTLMReqRspChannel("ch", env, *case["bounds"])
    pubs = [[], []]
    qms = []

    class Sub(UVMSubscriber):
        def write(self, t):
            pubs[self.k].append((qms[self.k].tick(), t))
    for k, ap in enumerate((ch.request_ap, ch.response_ap)):
        s = Sub(f"sub{k}", env)
        s.k = k
        ap.connect(s.analysis_export)
    ch.connect_phase(None)
    ends = [access(case, k, ch, host, t1) for k in (0, 1)]
    with Output() as out:
        env.do_resolve_bindings()
    for sev, _, line in out.reports():
        mon.check(sev not in ("UVM_ERROR", "UVM_FATAL"), "resolve-report", line)

    def mk(k):
        pin, pout = ends[k]
        qm = QueueMonitor(mon, case["bounds"][k], {"can_put": pin.can_put, "can_get": pout.can_get, "can_peek": pout.can_peek})
        qms.append(qm)

        async def blocking(fn):
            o = []
            await fn(o)
            mon.equal(len(o), 1, "outlist", "items appended to the output list of a blocking call")
            return o[0] if o else None

        def trying(fn):
            o = []
            ok = fn(o)
            mon.equal(len(o), 1 if ok else 0, "outlist", "items appended by a try call")
            return ok, (o[0] if o else None)
        return qm, {"put": pin.put, "get": lambda: blocking(pout.get), "peek": lambda: blocking(pout.peek),
                    "try_put": pin.try_put, "try_get": lambda: trying(pout.try_get),
                    "try_peek": lambda: trying(pout.try_peek)}
    sides = [mk(0), mk(1)]
    tasks = [spawn(mon, play({"procs": case["procs"][k]}, mon, sides[k][1], sides[k][0])) for k in (0, 1)]
    for t in tasks:
        await t
    for k, (qm, ad) in enumerate(sides):
        while True:
            want = qm.level() > 0
            rec = qm.invoke("drain", "try_get")
            ok, res = ad["try_get"]()
            mon.equal(bool(ok), want, "drain", "try_get while draining")
            if not ok or not want:
                break
            qm.returned(rec, res)
        qm.order()
        seen = {}
        for s, it in pubs[k]:
            mon.count("publications")
            mon.check(id(it) not in seen, "published-twice", f"{it!r} was published twice")
            seen[id(it)] = s
        for r in qm.puts:
            s = seen.get(id(r["item"]))
            mon.check(s is not None and r["inv"] < s < r["ret"], "publication",
                      f"{('request', 'response')[k]} {r['item']!r} was not published during its put")
        mon.equal(len(pubs[k]), len(qm.puts), "publication-count", "publications on the channel's analysis port")
