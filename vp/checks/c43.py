"""C43: phases, schedules and domains that users add.

Each case inserts phases and schedules of its own into the common domain, the schedule of the run-time phases and domains of its own,
moves components to domains and replaces phase implementations, then runs a test. The oracle keeps its own graph of the phases,
computes from the times the objections are held when each phase starts and ends, and compares every callback with it."""
import itertools

from cocotb.triggers import Timer

from vp.monitor import Output
from vp.uvmrun import random_tree, run_uvm

SIM = True
BATCH = 1
CASES = {"quick": 260, "thorough": 5000}
SIM_LIMIT_NS = 2000000
TECHNIQUE = "runtime monitoring: every phase callback of a running test against a graph and timeline of the phases kept by the oracle"
LEVEL_NOTE = "Random insertions, domains, objections and hierarchies on the real phases in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-7 components, 0-3 domains, 1-8 insertions of phases and schedules in series, parallel, before, after and between others; "
        "non-trivial: a phase of the user's ran; distinct: hash of the log")
REQUIRE = {"own": 600, "parallel": 150, "domains": 100, "moved": 150, "scheds": 60, "imps": 100, "functions": 100, "waited": 300, "pairs": 30000,
           "changes": 5000, "with": 60, "before": 60, "after": 60, "between": 40, "append": 60, "runtime_in_own": 200}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]
COMMON = ["build", "connect", "end_of_elaboration", "start_of_simulation", "run", "extract", "check", "report", "final"]
RT = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure", "pre_main", "main", "post_main", "pre_shutdown",
      "shutdown", "post_shutdown"]


class Graph:
    """containers have a begin and an end point (C+ and C-), phases are single points"""

    def __init__(self):
        self.pred, self.succ = {"common+": [], "common-": ["common+"]}, {"common+": ["common-"], "common-": []}
        self.parent = {}                    # of phases and containers
        for p in COMMON:
            self.add("common", p)
        self.add("uvm", None)
        self.add("uvm_sched", None)
        for p in RT:
            self.add("uvm_sched", p)
        self.link("uvm", "uvm_sched")
        self.link("common", "uvm", "with", ["common/run"])

    def add(self, box, p, how="append", refs=()):
        if p is None:
            self.pred[box + "+"], self.succ[box + "+"], self.pred[box + "-"], self.succ[box + "-"] = [], [box + "-"], [box + "+"], []
            return box
        n = box + "/" + p
        self.pred[n], self.succ[n] = [], []
        self.insert(box, n, n, how, refs)
        self.parent[n] = box
        return n

    def link(self, box, inner, how="append", refs=()):
        self.parent[inner] = box
        self.insert(box, inner + "+", inner + "-", how, refs)

    def edge(self, a, b):
        if b not in self.succ[a]:
            self.succ[a].append(b)
            self.pred[b].append(a)

    def cut(self, a, b):
        if b in self.succ[a]:
            self.succ[a].remove(b)
            self.pred[b].remove(a)

    def insert(self, box, first, last, how, refs):
        if how == "append":
            how, refs = "before", [box + "-"]
        if how == "with":
            for a in list(self.pred[refs[0]]):
                self.edge(a, first)
            for b in list(self.succ[refs[0]]):
                self.edge(last, b)
        elif how == "before":
            for a in list(self.pred[refs[0]]):
                self.cut(a, refs[0])
                self.edge(a, first)
            self.edge(last, refs[0])
        elif how == "after":
            for b in list(self.succ[refs[0]]):
                self.cut(refs[0], b)
                self.edge(last, b)
            self.edge(refs[0], first)
        else:
            self.cut(refs[0], refs[1])
            self.edge(refs[0], first)
            self.edge(last, refs[1])

    def real(self, n, way, seen=None):
        """the nearest phases before or after n"""
        out = []
        for m in way[n]:
            for x in [m] if "/" in m else self.real(m, way):
                if x not in out:
                    out.append(x)
        return out

    def siblings(self, n):
        out = []
        for s in self.real(n, self.succ):
            for p in self.real(s, self.pred):
                if p != n and p not in out:
                    out.append(p)
        return out

    def reach(self):
        if not hasattr(self, "reached"):
            self.reached = {}

            def go(n):
                if n not in self.reached:
                    self.reached[n] = set(self.succ[n]).union(*[go(m) for m in self.succ[n]]) if self.succ[n] else set()
                return self.reached[n]
            go("common+")
        return self.reached

    def timeline(self, task, hold):
        """when each point starts and ends; None if phases would wait for each other for ever"""
        memo, busy = {}, set()

        def get(what, n):
            k = (what, n)
            if k in memo:
                return memo[k]
            if k in busy:
                raise RecursionError
            busy.add(k)
            if what == "start":
                r = max([get("end", m) for m in self.pred[n]], default=0)
            elif what == "dropped":
                r = get("start", n) + hold(n)
            elif "/" not in n:
                r = get("start", n)
            elif task(n):
                r = max([get("dropped", m) for m in [n] + self.siblings(n)])
            else:
                r = max([get("start", n)] + [get("end", m) for m in self.siblings(n)])
            memo[k] = r
            busy.discard(k)
            return r
        try:
            return {n: (get("start", n), get("end", n)) for n in self.pred if n in self.reach() or n == "common+"}
        except RecursionError:
            return None


def kind(case, n):
    p = n.split("/")[1]
    if p in case["kinds"]:
        return case["kinds"][p]
    return "task" if p == "run" or p in RT else "top" if p in ("build", "final") else "bottom"


def build(case, upto=None):
    g = Graph()
    for d in case["domains"]:
        if d["mode"] == "default":
            continue
        g.add(d["name"], None)
        for p in d["phases"]:
            g.add(d["name"], p)
    for name, phases in case["scheds"].items():
        g.add(name, None)
        for p in phases:
            g.add(name, p)
    for d in case["domains"]:
        if d["mode"] == "default":
            g.add(d["name"], None)
            s = d["name"] + ".uvm_sched"
            g.add(s, None)
            for p in RT:
                g.add(s, p)
            g.link(d["name"], s)
        g.link("common", d["name"], "with", ["common/run"])
    for box, what, how, refs in case["ops"][:upto]:
        if what in case["scheds"]:
            g.link(box, what, how, refs)
        else:
            g.add(box, what, how, refs)
    return g


def domain_of(g, n):
    box = n.split("/")[0]
    while box in g.parent and g.parent[box] != "common":
        box = g.parent[box]
    return box


def gen(rng, tier):
    own = [f"px{i}" for i in range(rng.randint(2, 6 if tier == "quick" else 9))]
    kinds = {p: rng.choice(["task", "task", "task", "top", "bottom"]) for p in own}
    case = {"kinds": kinds, "domains": [], "scheds": {}, "ops": [], "tree": random_tree(rng, 6, ["a", "b", "c"])}
    for i in range(rng.choice([0, 1, 1, 2, 3])):
        mode = rng.choice(["default", "override"])
        case["domains"].append({"name": f"dom{i}", "mode": mode, "phases": [] if mode == "default" else
                                rng.sample(own + ["reset", "main", "shutdown"], rng.randint(1, 4))})
    while build(case).timeline(lambda n: kind(case, n) == "task", lambda n: 0) is None:
        case["domains"].pop()
    for i in range(rng.choice([0, 0, 1, 2])):
        case["scheds"][f"sched{i}"] = rng.sample(own, rng.randint(1, min(3, len(own))))
    todo = list(case["scheds"])
    for _ in range(rng.randint(1, 8)):
        g = build(case)
        box = rng.choice(["common", "uvm_sched"] + [d["name"] for d in case["domains"] if d["mode"] != "default"] + [s for s in case["scheds"] if s in g.parent])
        here = [n for n in g.parent if g.parent[n] == box and "/" in n]
        if todo and rng.random() < .5:
            what = todo[0]
            names = case["scheds"][what]
            if box in case["scheds"]:
                continue
        else:
            what = rng.choice(own)
            names = [what]
            if box + "/" + what in g.pred:
                continue
        if box == "common":
            used = {n.split("/")[1] for n in g.pred if "/" in n}
            if used & set(names):
                continue
            here = [n for n in here if n != "common/build"]
        # phases found by find() have one place only
        here = [n for n in here if sum(m.split("/")[1:] == n.split("/")[1:] and (box == "common" or domain_of(g, m) == domain_of(g, n)) for m in g.pred) == 1]
        how = rng.choice(["append", "with", "before", "after", "between"])
        try:
            if how == "append":
                refs = []
            elif how == "between":
                r = g.reach()
                refs = list(rng.choice([(a, b) for a in here for b in here if b in r.get(a, ())]))
            else:
                refs = [rng.choice(here)]
                if how == "after" and box != "common" and rng.random() < .2:
                    refs = [box + "+"]
        except IndexError:
            continue
        case["ops"].append([box, what, how, refs])
        g = build(case)
        if g.timeline(lambda n: kind(case, n) == "task", lambda n: 0) is None:
            case["ops"].pop()
        elif what in todo:
            todo.remove(what)
    for s in todo:
        del case["scheds"][s]
    g = build(case)
    case["hold"] = {n: [rng.choice([0, 2, 5, 7, 11, 20]), rng.randint(0, 99)] for n in sorted(g.pred)
                    if "/" in n and kind(case, n) == "task" and rng.random() < .45 and "common/run" not in g.reach()[n]}      # run must start at 0
    n = len(case["tree"]) + 1
    case["moves"] = [[rng.randint(0, n - 1), rng.choice([d["name"] for d in case["domains"]] + ["uvm"]), rng.random() < .7,
                      rng.choice(["pre", "pre", "post", "connect"])]
                     for _ in range(rng.choice([0, 1, 1, 2, 3]))] if case["domains"] else []
    phases = [x for x in own + ["reset", "main", "run", "connect", "check"]]
    parents = sorted({p for p, _ in case["tree"]})
    case["imps"] = [[rng.choice(parents[:2]) if parents and rng.random() < .5 else rng.randint(0, n - 1), rng.choice(phases), rng.random() < .6, rng.choice(["pre", "post"])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    case["early"] = rng.random() < .6
    return case


async def run(case, mon):
    import uvm.base.uvm_common_phases as cp
    import uvm.base.uvm_runtime_phases as rp
    from uvm.base import uvm_object_globals as ug
    from uvm.base.sv import sv
    from uvm.base.uvm_bottomup_phase import UVMBottomupPhase
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_domain import UVMDomain
    from uvm.base.uvm_phase import UVMPhase, UVMPhaseCb
    from uvm.base.uvm_task_phase import UVMTaskPhase
    from uvm.base.uvm_topdown_phase import UVMTopdownPhase
    from uvm.macros.uvm_object_defines import uvm_component_utils
    log, nodes, comps, states = [], {}, {}, []
    tree = case["tree"]
    doms = {}                               # model: domain of each component
    imps = {}                               # model: replaced implementations

    def now():
        return int(sv.realtime())

    std = {}                                # implementation of each phase
    for k, c in [*vars(cp).items(), *vars(rp).items()]:
        if k.startswith("UVM") and k.endswith("Phase") and k not in ("UVMTaskPhase", "UVMTopdownPhase", "UVMBottomupPhase", "UVMPhase"):
            one = c.get()
            if not mon.check(one is not None and one is c.get(), "singleton", "the implementation of a phase is one object", phase=k):
                return
            std[one.get_name()] = one

    def make(p, k, label):
        base = {"task": UVMTaskPhase, "top": UVMTopdownPhase, "bottom": UVMBottomupPhase}[k]
        if k == "task":
            class Ph(base):
                async def exec_task(self, comp, phase):
                    if isinstance(comp, Comp):               # not the root
                        await comp.work(phase, label)
        else:
            class Ph(base):
                def exec_func(self, comp, phase):
                    if isinstance(comp, Comp):
                        comp.note(phase, label)
        return Ph(p)
    for p, k in case["kinds"].items():
        std[p] = make(p, k, "own")
    graph = build(case)
    boxes = {"common": UVMDomain.get_common_domain(), "uvm": UVMDomain.get_uvm_domain(), "uvm_sched": UVMDomain.get_uvm_schedule()}

    def holder(n):
        return domain_of(graph, n)

    class Comp(UVMComponent):
        def note(self, phase, what):
            log.append((nodes.get(phase), self.idx, what, now(), phase))

        async def work(self, phase, what):
            self.note(phase, what)
            h = case["hold"].get(names.get(phase))
            if h and self.idx == h[1]:
                phase.raise_objection(self)
                await Timer(h[0], "NS")
                phase.drop_objection(self)

        def phase_started(self, phase):
            self.note(phase, "started")

        def phase_ended(self, phase):
            self.note(phase, "ended")

        def build_phase(self, phase):
            super().build_phase(phase)
            self.note(phase, "std")
            ops(self, "pre")
            for i, (p, name) in enumerate(tree):
                if p == self.idx:
                    make_comp(i + 1, name, self)
            ops(self, "post")

        def connect_phase(self, phase):
            self.note(phase, "std")
            ops(self, "connect")

        def define_domain(self, domain):
            d = next((d for d in case["domains"] if d["name"] == domain.get_name()), None)
            if d is None or d["mode"] == "default":
                super().define_domain(domain)

    def make_comp(idx, name, parent):
        c = Comp.__new__(Comp)
        c.idx = idx
        comps[idx] = c
        up = tree[idx - 1][0]
        doms[idx] = doms[up]
        Comp.__init__(c, name, parent)

    def below(i):
        out = [i]
        for j, (p, _) in enumerate(tree):
            if p in out and j + 1 in comps:
                out.append(j + 1)
        return out

    def ops(comp, when):
        if comp.idx == 0 and when == "pre":
            insert()
        for i, d, hier, w in case["moves"]:
            if i == comp.idx and w == when:
                comp.set_domain(boxes[d], hier)
                mon.equal(comp.get_domain(), boxes[d], "get-domain", "domain of a component after it was set")
                for j in below(i) if hier else [i]:
                    doms[j] = d
        for n, (i, p, hier, w) in enumerate(case["imps"]):
            if i == comp.idx and w == when and p in std:
                k = case["kinds"].get(p) or ("bottom" if p in ("connect", "check") else "task")
                comp.set_phase_imp(std[p], make(p, k, f"imp{n}"), hier)
                for j in below(i) if hier else [i]:
                    imps[j, p] = f"imp{n}"

    def node(ref):
        box, p = ref.split("/") if "/" in ref else (ref[:-1], None)
        if p is None:
            return boxes[box]
        where = boxes[box]
        return where.find(std[p])

    def prepare():
        for d in case["domains"]:
            boxes[d["name"]] = UVMDomain(d["name"])
            for p in d["phases"]:
                boxes[d["name"]].add(std[p])
        for name, phases in case["scheds"].items():
            boxes[name] = UVMPhase(name, ug.UVM_PHASE_SCHEDULE)
            for p in phases:
                boxes[name].add(std[p])

    def insert():
        if inserted:
            return
        inserted.append(1)
        com = boxes["common"]
        for d in case["domains"]:
            if d["mode"] == "default":
                Comp.define_domain(comps[0], boxes[d["name"]])
            else:
                com.add(boxes[d["name"]], with_phase=com.find(std["run"]))
        for i, (box, what, how, refs) in enumerate(case["ops"]):
            r = [node(x) for x in refs]
            if i % 2 and box != "common" and all("/" in x for x in refs):
                r = [std[x.split("/")[1]] for x in refs]          # found by its implementation
            kw = dict(zip({"append": [], "with": ["with_phase"], "before": ["before_phase"], "after": ["after_phase"],
                           "between": ["after_phase", "before_phase"]}[how], r))
            boxes[box].add(boxes[what] if what in case["scheds"] else std[what], **kw)
            mon.count(how)
    inserted, names = [], {}

    def identify():
        """the node of each phase by its full name"""
        for n in graph.pred:
            if "/" in n:
                box, p = n.split("/")
                path = [p]
                b = box
                while b not in ("common",):
                    if graph.parent.get(b) == "common" or b not in graph.parent:
                        break
                    path.insert(0, b.split(".")[-1])
                    b = graph.parent[b]
                full[".".join([b] + path)] = n
    full = {}
    identify()

    class Names:
        """phases called by their full names"""

        def get(self, phase):
            return full.get(phase.get_full_name())
    nodes = names = Names()

    class C43Test(Comp):
        def __init__(self, name, parent):
            self.idx = 0
            comps[0] = self
            doms[0] = "uvm"
            Comp.__init__(self, name, parent)
    for p in COMMON + RT:
        if p in ("build", "connect"):
            continue

        def fn(self, phase):
            self.note(phase, "std")

        async def task(self, phase):
            await self.work(phase, "std")
        setattr(Comp, p + "_phase", task if p == "run" or p in RT else fn)
    uvm_component_utils(C43Test)

    class Watch(UVMPhaseCb):
        def phase_state_change(self, phase, change):
            if phase.get_phase_type() == ug.UVM_PHASE_NODE:
                states.append((nodes.get(phase), phase.get_state(), change.get_state(), change.get_prev_state(), now()))
    n = len(tree) + 1
    for h in case["hold"].values():
        h[1] %= n
    prepare()
    # who holds an objection is known before the run: only components of the domain count
    watch = Watch("watch")
    with Output() as out:
        UVMCallbacks.add(None, watch)
        await run_uvm(C43Test)
    for sev, rid, line in out.reports():
        mon.check(sev not in ("UVM_ERROR", "UVM_FATAL", "UVM_WARNING"), "report", f"the run reported {line}")
    judge(case, mon, graph, log, comps, doms, imps, holder, boxes, std)
    sequence(case, mon, graph, states, ug)


def sequence(case, mon, g, states, ug):
    """the state changes that callbacks were told"""
    per = {}
    for n, st, new, old, t in states:
        per.setdefault(n, []).append((new, old, t))
        mon.check(st == new, "change", "the state of a phase is that of the change a callback is told", phase=n)
        mon.count("changes")
    base = [getattr(ug, "UVM_PHASE_" + x) for x in ["SCHEDULED", "SYNCING", "STARTED", "EXECUTING", "READY_TO_END", "ENDED", "CLEANUP", "DONE"]]
    ready, execing = base[4], base[3]
    for n in g.pred:
        if "/" not in n:
            continue
        got = [x for x in per.get(n, []) if x[0] != ug.UVM_PHASE_DORMANT]
        seq = [x[0] for i, x in enumerate(got) if not (x[0] == ready and i and got[i - 1][0] == ready)]
        want = base if kind(case, n) == "task" else [x for x in base if x != ready]
        mon.equal(seq, want, "states", "states of a phase that callbacks were told", phase=n)
        last = ug.UVM_PHASE_DORMANT
        for new, old, t in got:
            mon.check(old == last or (old == execing and last == ready), "previous", "previous state of a change of state", phase=n, change=(new, old, last))
            last = new


def judge(case, mon, g, log, comps, doms, imps, holder, boxes, std):
    def members(nd):
        d = holder(nd)
        return [c for c in comps if d == "common" or doms[c] == d]
    mon.equal(len(comps), len(case["tree"]) + 1, "built", "number of components built")
    mem = {n: members(n) for n in g.pred if "/" in n}
    hold = {n: (case["hold"][n][0] if n in case["hold"] and case["hold"][n][1] in mem[n] else 0) for n in g.pred}
    line = g.timeline(lambda n: kind(case, n) == "task", lambda n: hold[n])
    seen = {}
    for i, (n, c, what, t, ph) in enumerate(log):
        if not mon.check(n in line, "which", "a callback is given the node of its phase, with the full name of its place", name=ph.get_full_name()):
            return
        seen.setdefault(n, []).append((i, c, what, t))
    span = {}
    for n, (t0, t1) in line.items():
        if "/" not in n:
            continue
        p = n.split("/")[1]
        key = dict(phase=n, ops=case["ops"], domains=[(d["name"], d["mode"], d["phases"]) for d in case["domains"]], log=seen.get(n))
        got = seen.get(n, [])
        calls = [x for x in got if x[2] not in ("started", "ended")]
        mon.equal(sorted(x[1] for x in calls), sorted(mem[n]), "members", "components that got the callback of a phase", **key)
        for x in calls:
            default = "own" if p in case["kinds"] else "std"
            want = imps.get((x[1], p), default)
            mon.equal(x[2], want, "implementation", "the implementation of a phase run for a component", **key)
            mon.count("imps", want.startswith("imp"))
            mon.equal(x[3], t0, "start-time", "when a phase starts", **key)
        st, en = [x for x in got if x[2] == "started"], [x for x in got if x[2] == "ended"]
        if p != "build":
            mon.equal(sorted(x[1] for x in st), sorted(mem[n]), "started", "components that saw a phase start", **key)
        mon.equal(sorted(x[1] for x in en), sorted(mem[n]), "ended", "components that saw a phase end", **key)
        mon.check(all(x[3] == t1 for x in en), "end-time", "when a phase ends", expected=t1, start=t0, **key)
        if calls and en:
            mon.check(max([x[0] for x in st] + [-1]) < min(x[0] for x in calls) and max(x[0] for x in calls) < min(x[0] for x in en), "within",
                      "callbacks of a phase lie between its start and its end", **key)
            span[n] = (min(x[0] for x in st + calls), max(x[0] for x in en))
        order = {x[1]: x[0] for x in calls}
        k = kind(case, n)
        if k != "task":
            mon.count("functions", p in case["kinds"])
            for i, (up, _) in enumerate(case["tree"]):
                if i + 1 in order and up in order:
                    mon.check((order[up] < order[i + 1]) == (k == "top"), "direction", "order of parent and child in a function phase", kind=k, **key)
        mon.count("own", p in case["kinds"] and bool(calls))
        mon.count("runtime_in_own", p in RT and holder(n) != "uvm")
        mon.count("waited", t1 > t0 + hold[n])
    nontrivial = any(n.split("/")[1] in case["kinds"] for n in span)
    # order
    r = g.reach()
    for a in span:
        par = 0
        for b in span:
            if b in r[a]:
                mon.check(span[a][1] < span[b][0], "order", "a phase starts after the phases before it have ended", first=a, second=b, ops=case["ops"])
            elif a != b and a not in r[b]:
                par += 1
        mon.count("parallel", par > 0 and a.split("/")[1] in case["kinds"])
    mon.count("domains", len(case["domains"]))
    mon.count("moved", sum(d != "uvm" for d in doms.values()))
    mon.count("scheds", len(case["scheds"]))
    # the graph as its users see it
    real = {}
    for n, c, what, t, ph in log:
        real[n] = ph
    for a in real:
        for b in real:
            mon.equal((real[a].is_before(real[b]), real[a].is_after(real[b])), (b in r[a], a in r[b]), "is-before", "is_before and is_after of two phases",
                      first=a, second=b, ops=case["ops"])
            mon.count("pairs")
    mon.nontrivial = nontrivial
    mon.event("log", str([x[:4] for x in log]))
