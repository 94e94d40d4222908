"""The oracle is a reference resolution of the connection graph (first-visit order of a depth-first walk in connection
order, each implementation once) and the log of write() calls seen by the generated subscribers, including writes made from
inside a subscriber's write. Not covered: connecting after the bindings were resolved."""
from vp.monitor import Output

SIM = False
BATCH = 25
CASES = {"quick": 2400, "thorough": 60000}
TECHNIQUE = "runtime monitoring: broadcast log of generated connection graphs against a reference resolution (exactly-once, order)"
LEVEL_NOTE = "Random connection graphs and write sequences on the real ports; exploration, no claim beyond what ran."
RULE = ("random acyclic graphs of 1-12 analysis ports, exports and implementations (plain imps, suffixed imps, subscribers, "
        "analysis FIFOs) over a component tree, connected in random order, then random and nested writes; non-trivial: at "
        "least one write reached two subscribers; distinct: hash of the delivery log")
REQUIRE = {"writes": 4000, "deliveries": 5000, "nested_writes": 300, "zero_subscriber_writes": 200, "diamonds": 100}
ASSUMPTIONS = []


def gen(rng, tier):
    n_comp = rng.randint(2, 6)
    comps = [[f"c{i}", rng.randrange(-1, i) if i else -1] for i in range(n_comp)]
    nodes = []
    for k in range(rng.randint(2, 12 if tier == "quick" else 24)):
        kind = rng.choice(["port", "port", "export", "imp", "sfx", "sub", "fifo"])
        nodes.append([kind, rng.randrange(n_comp)])
    rank = {"port": 0, "export": 1}
    edges = []
    for i, (ki, _) in enumerate(nodes):
        if ki not in rank:
            continue
        for j, (kj, _) in enumerate(nodes):
            if i == j:
                continue
            ok = (ki == "port" and (kj != "port" or i < j)) or (ki == "export" and kj != "port" and (kj != "export" or i < j))
            if ok and rng.random() < .3:
                edges.append([i, j])
    rng.shuffle(edges)
    relay = {}
    for i, (k, _) in enumerate(nodes):
        if k in ("imp", "sfx", "sub") and rng.random() < .2:
            ps = [j for j, (kk, _) in enumerate(nodes) if kk == "port"]
            if ps:
                relay[str(i)] = rng.choice(ps)
    writes = [rng.randrange(len(nodes)) for _ in range(rng.randint(1, 10))]
    if rng.random() < .01:
        writes = writes[:1] * 1500
    return {"comps": comps, "nodes": nodes, "edges": edges, "relay": relay, "writes": writes,
            "order": rng.random(), "returns": [rng.choice([None, None, None, False, True, 0, 1]) for _ in nodes]}


def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.comps.uvm_subscriber import UVMSubscriber
    from uvm.tlm1 import UVMAnalysisPort, UVMAnalysisExport, UVMAnalysisImp, UVMTLMAnalysisFIFO
    from uvm.macros.uvm_tlm_defines import uvm_analysis_imp_decl
    uid = run.n = getattr(run, "n", 0) + 1
    sfx = run.sfx = getattr(run, "sfx", None) or uvm_analysis_imp_decl("_vp")
    log = []
    depth = [0]

    def got(i, t):
        log.append((i, t))
        mon.event("deliver", i, depth[0])
        port = case["relay"].get(str(i))
        if port is not None and depth[0] < 2:
            mon.count("nested_writes")
            depth[0] += 1
            real[port].write(("relay", i, t))
            depth[0] -= 1
        return case["returns"][i]

    class Host(UVMComponent):
        pass

    class Imp(UVMComponent):
        def write(self, t):
            return got(self.i, t)

        def write_vp(self, t):
            return got(self.i, t)

    class Sub(UVMSubscriber):
        def write(self, t):
            return got(self.i, t)
    top = Host(f"env{uid}", None)
    comps = []
    for name, parent in case["comps"]:
        comps.append(Host(name, comps[parent] if parent >= 0 else top))
    real, kids = [], {}
    for i, (kind, c) in enumerate(case["nodes"]):
        host = comps[c]
        if kind == "port":
            real.append(UVMAnalysisPort(f"n{i}", host))
        elif kind == "export":
            real.append(UVMAnalysisExport(f"n{i}", host))
        elif kind == "fifo":
            f = UVMTLMAnalysisFIFO(f"n{i}", host)
            f.i = i
            kids[i] = f
            real.append(f.analysis_export)
        else:
            x = (Sub if kind == "sub" else Imp)(f"n{i}", host)
            x.i = i
            real.append(x.analysis_export if kind == "sub" else (sfx if kind == "sfx" else UVMAnalysisImp)("imp", x))
    with Output() as out:
        for i, j in case["edges"]:
            real[i].connect(real[j])
        top.do_resolve_bindings()
    for sev, rid, line in out.reports():
        mon.check(sev not in ("UVM_ERROR", "UVM_FATAL"), "connect-report", f"legal connections reported: {line}")
    succ = {}
    for i, j in case["edges"]:
        if j not in succ.setdefault(i, []):
            succ[i].append(j)
    memo = {}

    def reach(i):
        if i in memo:
            return memo[i]
        res = []
        if case["nodes"][i][0] not in ("port", "export"):
            res = [i]
        else:
            for j in succ.get(i, []):
                r = reach(j)
                if set(r) & set(res):
                    mon.count("diamonds")
                res += [x for x in r if x not in res]
        memo[i] = res
        return res

    def expect(i, t, d):
        res = []
        for x in reach(i):
            if case["nodes"][x][0] == "fifo":
                fifos.setdefault(x, []).append(t)
                continue
            res.append((x, t))
            port = case["relay"].get(str(x))
            if port is not None and d < 2:
                res += expect(port, ("relay", x, t), d + 1)
        return res
    fifos = {}
    widest = 0
    for k, i in enumerate(case["writes"]):
        item = ("item", k)
        log.clear()
        real[i].write(item)
        want = expect(i, item, 0)
        mon.count("writes")
        mon.count("deliveries", len(log))
        if not reach(i):
            mon.count("zero_subscriber_writes")
        widest = max(widest, len(log))
        mon.equal(log, want, "broadcast", f"deliveries of a write to {real[i].get_full_name()}")
        if case["nodes"][i][0] in ("port", "export"):
            mon.equal(real[i].size(), len(reach(i)), "size", "size() of the port")
    for i, f in kids.items():
        want = fifos.get(i, [])
        mon.equal(f.used(), len(want), "fifo-used", "items stored in an analysis FIFO")
        got_items = []
        while f.try_get(got_items):
            pass
        mon.equal(got_items, want, "fifo-order", "items got from an analysis FIFO")
    mon.nontrivial = widest > 1
