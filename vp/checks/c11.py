"""The oracle is a model of the connection rules (method sets per interface kind, allowed directions, size limits) that
predicts, for every connect() and for the resolution, exactly which error reports come from which port, and which
implementations each port ends up bound to; calls are then made through every bound port and traced to the implementation.
Not covered: the hierarchy hints (UVM_WARNING) and cyclic port-to-port connections."""
import re

from vp.drive import run_now
from vp.monitor import Output

SIM = False
BATCH = 25
CASES = {"quick": 2400, "thorough": 60000}
TECHNIQUE = "runtime monitoring: reports, bindings and calls of generated port graphs against a model of the TLM connection rules"
LEVEL_NOTE = "Random connection graphs of all TLM-1 interface kinds on the real ports; exploration, no claim beyond what ran."
RULE = ("2-14 ports, exports and implementations of random TLM-1 interface kinds with random size limits over a component "
        "tree, random legal and illegal connections in random order, then resolution and calls; non-trivial: a call went "
        "through a port-to-imp path; distinct: hash of the call and report log")
REQUIRE = {"calls": 3000, "illegal_connects": 2000, "legal_connects": 3000, "size_errors": 500, "multi_bound": 200}
ASSUMPTIONS = []

IFACES = {"Put": ["put"], "Get": ["get"], "Peek": ["peek"], "GetPeek": ["get", "peek"], "Transport": ["transport"],
          "Master": ["put", "get", "peek", "M"], "Slave": ["put", "get", "peek", "S"]}
PFX = ["Blocking", "NonBlocking", ""]


def methods(pfx, iface):
    res = set()
    for m in IFACES[iface]:
        if m in ("M", "S"):
            res.add(m)
            continue
        if pfx != "NonBlocking":
            res.add("b_" + m)
        if pfx != "Blocking":
            res.add("n_" + m)
    return res


def gen(rng, tier):
    n_comp = rng.randint(1, 5)
    comps = [rng.randrange(-1, i) if i else -1 for i in range(n_comp)]
    focus = rng.choice(list(IFACES)) if rng.random() < .6 else None
    nodes = []
    for k in range(rng.randint(2, 9 if tier == "quick" else 14)):
        iface = focus if focus and rng.random() < .8 else rng.choice(list(IFACES))
        kind = rng.choice(["port", "port", "export", "imp", "imp"])
        lim = rng.choice([[1, 1], [1, 1], [0, 1], [0, -1], [1, -1], [2, 3], [0, 2], [1, 2]])
        nodes.append([kind, rng.choice(PFX), iface, rng.randrange(n_comp), lim])
    conns = []
    for _ in range(rng.randint(1, 3 * len(nodes))):
        i, j = rng.randrange(len(nodes)), rng.randrange(len(nodes))
        if rng.random() < .03:
            j = None
        elif nodes[i][0] == nodes[j][0] and i > j:
            i, j = j, i
        elif rng.random() < .7 and (nodes[i][0] == "imp" or nodes[i][0] == "export" and nodes[j][0] == "port"):
            i, j = j, i
        if j is not None and i == j and rng.random() < .7:
            continue
        conns.append([i, j])
    return {"comps": comps, "nodes": nodes, "conns": conns}


def errors(out):
    """Multiset of reporters of connection errors."""
    res = {}
    for sev, rid, line in out.reports():
        if sev in ("UVM_ERROR", "UVM_FATAL"):
            m = re.search(r": (\S+) \[", line)
            key = (m.group(1) if m else "?", rid)
            res[key] = res.get(key, 0) + 1
    return res


def run(case, mon):
    import uvm.tlm1 as t1
    from uvm.base.uvm_component import UVMComponent
    uid = run.n = getattr(run, "n", 0) + 1
    log = []

    class Host(UVMComponent):
        def __init__(self, name, parent, i):
            super().__init__(name, parent)
            self.i = i

        async def put(self, t):
            log.append((self.i, "b_put", t))

        def try_put(self, t):
            log.append((self.i, "n_put", t))
            return self.i % 2 == 0

        def can_put(self):
            log.append((self.i, "can_put", None))
            return self.i % 2 == 0

        async def get(self, out):
            log.append((self.i, "b_get", None))
            out.append(("got", self.i))

        def try_get(self, out):
            log.append((self.i, "n_get", None))
            out.append(("got", self.i))
            return self.i % 2 == 0

        def can_get(self):
            log.append((self.i, "can_get", None))
            return self.i % 2 == 0

        async def peek(self, out):
            log.append((self.i, "b_peek", None))
            out.append(("peeked", self.i))

        def try_peek(self, out):
            log.append((self.i, "n_peek", None))
            out.append(("peeked", self.i))
            return self.i % 2 == 0

        def can_peek(self):
            log.append((self.i, "can_peek", None))
            return self.i % 2 == 0

        async def transport(self, req, rsp):
            log.append((self.i, "b_transport", req))
            rsp.append(("rsp", self.i, req))

        def nb_transport(self, req, rsp):
            log.append((self.i, "n_transport", req))
            rsp.append(("rsp", self.i, req))
            return self.i % 2 == 0
    top = UVMComponent(f"env{uid}", None)
    comps = []
    for i, parent in enumerate(case["comps"]):
        comps.append(UVMComponent(f"c{i}", comps[parent] if parent >= 0 else top))
    real, meth = [], []
    for i, (kind, pfx, iface, c, lim) in enumerate(case["nodes"]):
        meth.append(methods(pfx, iface))
        cls = getattr(t1, f"UVM{pfx}{iface}{kind.capitalize()}", None) or t1.uvm_blocking_slave_export
        if kind == "imp":
            h = Host(f"h{i}", comps[c], i)
            real.append(cls("imp", h))
        else:
            real.append(cls(f"n{i}", comps[c], lim[0], lim[1]))
        mon.equal((real[i].is_port(), real[i].is_export(), real[i].is_imp()),
                  (kind == "port", kind == "export", kind == "imp"), "kind", "is_port/is_export/is_imp")
    succ = {i: [] for i in range(len(real))}
    for i, j in case["conns"]:
        ki = case["nodes"][i][0]
        kj = case["nodes"][j][0] if j is not None else None
        legal = j is not None and i != j and ki != "imp" and not (ki == "export" and kj == "port") and \
            meth[i] <= meth[j]
        with Output() as out:
            real[i].connect(real[j] if j is not None else None)
        got = errors(out)
        want = {} if legal else {(real[i].get_full_name(), "Connection Error"): 1}
        mon.count("legal_connects" if legal else "illegal_connects")
        mon.event("connect", i, j, legal)
        mon.equal(got, want, "connect-report", f"errors of connecting {case['nodes'][i][:3]} to "
                  f"{case['nodes'][j][:3] if j is not None else None}")
        if legal and j not in succ[i]:
            succ[i].append(j)
    memo = {}

    def reach(i):
        if i not in memo:
            res = [i] if case["nodes"][i][0] == "imp" else []
            for j in succ[i]:
                res += [x for x in reach(j) if x not in res]
            memo[i] = res
        return memo[i]
    want = {}
    for i, (kind, _, _, _, lim) in enumerate(case["nodes"]):
        n = len(reach(i))
        if kind != "imp" and (n < lim[0] or lim[1] != -1 and n > lim[1]):
            want[(real[i].get_full_name(), "Connection Error")] = 1 + (n < lim[0] and lim[1] != -1 and n > lim[1])
            mon.count("size_errors")
    with Output() as out:
        top.do_resolve_bindings()
        if uid % 3 == 0:
            top.do_resolve_bindings()
    mon.equal(errors(out), want, "size-report", "errors of the resolution")
    called = False
    for i, (kind, pfx, iface, _, lim) in enumerate(case["nodes"]):
        imps = reach(i)
        p = real[i]
        mon.equal(p.size(), len(imps), "size", f"size() of {p.get_full_name()}")
        for k, x in enumerate(imps):
            mon.check(p.get_if(k) is real[x], "binding", f"get_if({k}) of {p.get_full_name()} is not the expected imp")
        fwd, back = {}, {}
        p.get_connected_to(fwd)
        p.get_provided_to(back)
        mon.equal(set(fwd), {real[j].get_full_name() for j in succ[i]}, "connected-to", "get_connected_to")
        mon.equal(set(back), {real[j].get_full_name() for j in succ if i in succ[j]}, "provided-to", "get_provided_to")
        with Output():
            mon.check(p.get_if(len(imps)) is None, "binding", "get_if beyond the last binding returned something")
        if not imps:
            continue
        if len(imps) > 1:
            mon.count("multi_bound")
        targets = [0]
        if kind != "imp" and len(imps) > 1:
            targets.append(len(imps) - 1)
        for t in targets:
            if t:
                p.set_if(t)
            x = imps[t]
            called = True
            for m in sorted(meth[i] - {"M", "S"}):
                log.clear()
                item = ("item", i, m)
                mon.count("calls")
                mon.event("call", i, x, m)
                base = m[2:]
                if m == "b_put":
                    run_now(p.put(item))
                    mon.equal(log, [(x, m, item)], "call", "put through a port")
                elif m == "n_put":
                    mon.equal(p.try_put(item), x % 2 == 0, "result", "try_put through a port")
                    mon.equal(p.can_put(), x % 2 == 0, "result", "can_put through a port")
                    mon.equal(log, [(x, m, item), (x, "can_put", None)], "call", "try_put/can_put through a port")
                elif m in ("b_get", "b_peek"):
                    out_l = []
                    run_now(getattr(p, base)(out_l))
                    mon.equal(log, [(x, m, None)], "call", f"{base} through a port")
                    mon.equal(out_l, [("got" if base == "get" else "peeked", x)], "result", f"{base} through a port")
                elif m in ("n_get", "n_peek"):
                    out_l = []
                    mon.equal(getattr(p, "try_" + base)(out_l), x % 2 == 0, "result", f"try_{base} through a port")
                    mon.equal(out_l, [("got" if base == "get" else "peeked", x)], "result", f"try_{base} output")
                    mon.equal(getattr(p, "can_" + base)(), x % 2 == 0, "result", f"can_{base} through a port")
                    mon.equal(log, [(x, m, None), (x, "can_" + base, None)], "call", f"try_{base}/can_{base} through a port")
                else:
                    out_l = []
                    if m == "b_transport":
                        run_now(p.transport(item, out_l))
                    else:
                        mon.equal(p.nb_transport(item, out_l), x % 2 == 0, "result", "nb_transport through a port")
                    mon.equal(log, [(x, m, item)], "call", "transport through a port")
                    mon.equal(out_l, [("rsp", x, item)], "result", "transport response")
    mon.nontrivial = called
