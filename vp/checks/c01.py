"""The oracle needs no model of the scheduler: it takes the log of all phase callbacks (and of the phase_started, phase_ready_to_end
and phase_ended callbacks) of a whole run and compares it with the tree that was built: multiplicity, order between phases, order
within a phase, and times. The relations is_before/is_after and the phase handed to each callback are compared with the phase
schedule of the documentation. Not covered: user-defined phases and domains, phase jumps (not implemented by the library)."""
from cocotb.triggers import Timer

from vp.phasetest import ALL, FUNC1, FUNC2, Log, RUNTIME, TASKS, TOPDOWN, gen_comps, make_test
from vp.uvmrun import run_uvm

SIM = True
BATCH = 1
CASES = {"quick": 500, "thorough": 12000}
TECHNIQUE = "runtime monitoring: offline checker over the recorded log of every phase callback of a whole test run"
LEVEL_NOTE = "Random component hierarchies with random delays run through all phases in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("a tree of 1-25 components, built in build_phase or in constructors, implementing all or some of the phases; the task phases wait "
        "random times with or without objections; non-trivial: more than one component; distinct: hash of the log")
REQUIRE = {"callbacks": 40000, "components": 2000, "in_constructor": 400, "partial": 500, "time_consuming_phases": 500, "relations": 5000, "queries": 1000}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]


def gen(rng, tier):
    comps = gen_comps(rng, rng.choice([1, 3, 8, 25]))
    n = len(comps) + 1
    body = {}
    for ph in rng.sample(TASKS, rng.choice([0, 1, 2, 3, 13])):
        body[ph] = {str(i): [rng.choice([0, 0, 1, 3, rng.randint(0, 20)]), rng.random() < .8, rng.choice([0, 5, rng.randint(0, 99)])]
                    for i in range(n) if rng.random() < .5}
    query = [[rng.randrange(n), rng.choice(ALL), rng.choice(["find", "find", "siblings", "first"])] for _ in range(rng.choice([0, 2, 8]))]
    return {"comps": comps, "body": body, "test_impl": None if rng.random() < .8 else ["build", "run"], "query": query}


def uvm_root():
    from uvm.base.uvm_coreservice import UVMCoreService
    return UVMCoreService.get().get_root()


def precedes(a, b):
    """phase a comes before phase b in the schedule; run is beside the runtime phases"""
    if a == b or a == "run" and b in RUNTIME or b == "run" and a in RUNTIME:
        return False
    return ALL.index(a) < ALL.index(b)


async def run(case, mon):
    log = Log()
    nodes = {}

    async def body(comp, i, ph, phase):
        b = case["body"].get(ph, {}).get(str(i))
        if b:
            hold, obj, after = b
            if obj:
                phase.raise_objection(comp)
            if hold:
                await Timer(hold, "NS")
            if obj:
                phase.drop_objection(comp)
            if after:
                await Timer(after, "NS")

    def observe(kind, comp, i, phase):
        from uvm.base.uvm_object_globals import UVM_PHASE_EXECUTING, UVM_PHASE_NODE
        name = phase.get_name()
        same = nodes.setdefault(name, phase)
        mon.check(same is phase and phase.get_phase_type() == UVM_PHASE_NODE, "phase-object", f"{kind} of {i}: another node of phase {name}")
        for j, ph, what in case["query"]:
            if j == i and ph == name:       # looking at the tree in a callback must not disturb the phases
                mon.count("queries")
                p = comp.get_parent()
                if what == "find":
                    p.find_all("*", []) if hasattr(p, "find_all") else uvm_root().find_all("*", [], p)
                elif what == "siblings":
                    c = p.get_first_child()
                    while c is not None:
                        c = p.get_next_child()
                else:
                    p.get_first_child()
        if kind == "call":
            mon.equal(phase.get_state(), UVM_PHASE_EXECUTING, "state", f"state of {name} in its callback")
            mon.equal(phase.get_run_count(), 1, "run-count", f"run count of {name}")
            mon.equal(phase.get_domain_name(), "uvm" if name in RUNTIME else "common", "domain", f"domain of {name}")
    cls, comps = make_test(case, log, body, observe)
    await run_uvm(cls)
    n = len(comps)
    ev = log.events
    for e in ev:
        mon.event("phase", *e)
    mon.count("callbacks", len(ev))
    mon.count("components", n)
    mon.nontrivial = n > 1

    # -- the tree built
    for i, c in enumerate(comps):
        mon.equal(len(log.insts.get(i, [])), 1, "built", f"component {i} ({c[1]}) constructed")
        mon.count("in_constructor", c[2] == "new" and i > 0)
        mon.count("partial", c[3] is not None)
    if any(len(log.insts.get(i, [])) != 1 for i in range(n)):
        return
    inst = {i: log.insts[i][0] for i in range(n)}
    for i, c in enumerate(comps):
        if i:
            mon.check(inst[i].get_parent() is inst[c[0]], "built", f"parent of component {i}")

    def implemented(i, ph):
        return f"{ph}_phase" in type(inst[i]).__dict__

    first = {}
    pos = {}
    for k, e in enumerate(ev):
        pos.setdefault(e[:3], []).append(k)
    # -- exactly once
    late = [False] * n          # created when the build phase had already started
    for i in range(1, n):
        late[i] = comps[i][2] != "new" or late[comps[i][0]]
    for i in range(n):
        for ph in ALL:
            want = int(implemented(i, ph))
            mon.equal(len(pos.get(("call", i, ph), [])), want, "once", f"component {i} ({comps[i]}): calls of {ph}_phase")
            for kind in ("started", "ended"):
                mon.equal(len(pos.get((kind, i, ph), [])), 
                          1 if kind == "ended" or ph != "build" or not late[i] else 0, "once-" + kind,
                          f"component {i}: phase_{kind} of {ph}")
            ready = len(pos.get(("ready_to_end", i, ph), []))
            mon.check(ready == (1 if ph in TASKS else 0) or ph in ("run", "post_shutdown") and ready > 1, "ready-to-end",
                      f"component {i}: {ready} calls of phase_ready_to_end of {ph}")
    extra = {e[2] for e in ev} - set(ALL)
    mon.check(not extra, "once", f"callbacks of unknown phases {extra}")
    # -- order of the phases
    span = {}
    for ph in ALL:
        for kind in ("started", "call", "ready_to_end", "ended"):
            ks = [k for i in range(n) for k in pos.get((kind, i, ph), [])]
            if ks:
                span[ph, kind] = (min(ks), max(ks))
        kinds = [k for k in ("started", "call", "ready_to_end", "ended") if (ph, k) in span]
        for a, b in zip(kinds, kinds[1:]):
            mon.check(span[ph, a][1] < span[ph, b][0], "phase-steps", f"{ph}: a component saw {b} before another saw {a}")
        if (ph, "started") in span and (ph, "ended") in span:
            first[ph] = (span[ph, "started"][0], span[ph, "ended"][1])
    for a in ALL:
        for b in ALL:
            if precedes(a, b) and a in first and b in first:
                mon.check(first[a][1] < first[b][0], "order", f"a component entered {b} before every component had finished {a}")
    # -- no callback outside its phase
    for k, e in enumerate(ev):
        if e[2] in first:
            mon.check(first[e[2]][0] <= k <= first[e[2]][1], "outside", f"{e} happened outside phase {e[2]}")
    # -- order inside a function phase, and no time
    for ph in FUNC1 + FUNC2:
        for i in range(1, n):
            p = comps[i][0]
            while p is not None:
                a, b = pos.get(("call", p, ph)), pos.get(("call", i, ph))
                if a and b:
                    mon.check((a[0] < b[0]) == (ph in TOPDOWN), "direction", f"{ph}: component {i} and its ancestor {p} in the wrong order")
                p = comps[p][0]
    t = {ph: (ev[first[ph][0]][3], ev[first[ph][1]][3]) for ph in first}
    for ph in first:
        ts = {e[3] for e in ev if e[2] == ph and e[0] in ("started", "call")}
        mon.equal(len(ts), 1, "start-time", f"{ph} starts at different times {ts}")
        if ph not in TASKS:
            mon.equal(t[ph][0], t[ph][1], "time", f"function phase {ph} took time")
        elif t[ph][0] != t[ph][1]:
            mon.count("time_consuming_phases")
    seq = FUNC1 + ["run"] + FUNC2
    for a, b in list(zip(seq, seq[1:])) + list(zip(RUNTIME, RUNTIME[1:])) + [("start_of_simulation", "pre_reset"), ("post_shutdown", "extract")]:
        if a in t and b in t:
            mon.equal(t[b][0], t[a][1], "gap", f"{b} starts when {a} has ended")
    # -- relations of the phase nodes
    for a in sorted(nodes):
        for b in sorted(nodes):
            if (len(a) * 7 + len(b) * 3 + mon.counters["callbacks"]) % 5 == 0:
                mon.count("relations")
                for meth, want in (("is_before", precedes(a, b)), ("is_after", precedes(b, a))):
                    mon.equal(bool(getattr(nodes[a], meth)(nodes[b])), want, meth, f"{a}.{meth}({b})")
                if a == b or precedes(a, b) or precedes(b, a):
                    mon.check(nodes[a].find_by_name(b, 0) is nodes[b], "find-by-name", f"{a}.find_by_name({b})")
