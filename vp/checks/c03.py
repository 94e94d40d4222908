"""The oracle is a reference model of objections driven by the observed notifications. A raise or drop must notify, in this
call, the object and every ancestor (raised/dropped with the objecting object, count and description); when a total returns to
zero the model holds the count of that last drop back, computes the time at which the drain of the object ends, and accepts the
all_dropped notification only then, once, and the passing on of the drop to the parent only after it. A raise before that
cancels the all_dropped and passes on only the difference. Several events at one instant are accepted in any order. Counts and
totals of all objects are compared after every call and at every quiescent instant, and processes waiting for an event must
proceed at the time of the event. Not covered: non-propagating mode (no setter), negative counts, copying an objection."""
import re

from cocotb.triggers import Timer, NullTrigger

from vp.clock import Clock
from vp.monitor import Output
from vp.tasks import spawn
from vp.uvmrun import random_tree

SIM = True
BATCH = 20
CASES = {"quick": 1000, "thorough": 40000}
SIM_LIMIT_NS = 100000
TECHNIQUE = "runtime monitoring: online checker of every objection notification, count and drain against a reference model"
LEVEL_NOTE = "Random objection histories on random hierarchies in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-3 objections over a random tree of components, plain objects and sequences; 5-40 groups of raise, drop, clear, drain time, "
        "display and wait_for at random times, over-drops included; non-trivial: an object was all_dropped; distinct: hash of all events")
REQUIRE = {"raised": 20000, "dropped": 10000, "all_dropped": 5000, "cancelled": 800, "overdrops": 300, "clears": 150,
           "released_waiters": 600, "displays": 500, "drained": 2000, "quiescent": 15000}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]
NAMES = [f"c{i}" for i in range(20)]


def gen(rng, tier):
    tree = [[p, f"{n}_{i}"] for i, (p, n) in enumerate(random_tree(rng, rng.choice([1, 2, 4, 8]), NAMES))]
    others = [[rng.choice(["obj", "seq", "seq"]), rng.randint(0, len(tree))] for _ in range(rng.randint(0, 2))]
    n = 1 + len(tree) + len(others)
    objections = rng.choice([1, 1, 2, 3])
    sloppy = rng.random() < .3
    drains = [rng.choice([0, 0, 1, 2, 3, 5, 10, 20]) if rng.random() < .7 else 0 for _ in range(n)]
    hooks = [rng.choice([0, 0, 0, 1, 4]) for _ in range(n)]
    few = [rng.randrange(n) for _ in range(rng.randint(1, 3))]
    groups = []
    for _ in range(rng.randint(5, 40)):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            op = rng.choice(["raise", "raise", "raise", "drop", "drop_all", "drop_all", "drop_all", "wait", "display", "set_drain"])
            r = rng.random()
            op = "over" if r < .03 else "clear" if r < .045 else "trace" if r < .05 else op
            if op == "raise":
                arg = rng.choice([1, 1, 1, 2, 3, rng.randint(0, 9)])
            elif op == "wait":
                arg = rng.choice(["raised", "dropped", "all_dropped", "all_dropped"])
            elif op == "set_drain":
                arg = rng.choice([0, 1, 4, 7])
            else:
                arg = rng.randint(0, 100)
            o = rng.choice(few) if rng.random() < .6 else rng.randrange(n)
            ops.append([op, rng.randrange(objections), o, arg, rng.random() < .3 if sloppy else 0])
        groups.append([rng.choice([0, 1, 1, 2, 3, 6, 30]), ops])
    return {"tree": tree, "others": others, "objections": objections, "drains": drains, "hooks": hooks, "groups": groups,
            "zero_arg": rng.random() < .3}


class Model:
    """One objection over the case's objects; index 0 is the root."""

    def __init__(self, mon, name, parent, now, drains, hooks, has_hook):
        self.mon, self.name, self.parent, self.now, self.hooks, self.has_hook = mon, name, parent, now, hooks, has_hook
        n = len(parent)
        self.src, self.tot, self.drain = [0] * n, [0] * n, list(drains)
        self.pend = {}          # object -> {"due","src","cnt","desc","st"}
        self.expect = []        # notifications the running call still has to make
        self.cleared = False
        self.times = {}         # (kind, object) -> times of the events
        self.comp_hook = None

    # -- what a call must do: list of (kind, obj, source, description, count)
    def m_raise(self, o, s, d, n):
        if n == 0:
            return []
        self.tot[o] += n
        if o == s:
            self.src[o] += n
        res = [("raised", o, s, d, n)]
        p = self.pend.pop(o, None)
        if p:
            self.mon.count("cancelled")
        if o == 0:
            return res
        diff = n - (p["cnt"] if p else 0)
        if diff > 0:
            res += self.m_raise(self.parent[o], s, d, diff)
        elif diff < 0:
            res += self.m_drop(self.parent[o], s, d, -diff)
        return res

    def m_drop(self, o, s, d, n):
        if n == 0:
            return []
        if o == s:
            self.src[o] -= n
        self.tot[o] -= n
        res = [("dropped", o, s, d, n)]
        if self.tot[o]:
            if o:
                res += self.m_drop(self.parent[o], s, d, n)
        else:
            self.pend[o] = {"due": self.now.ps() + self.drain[o] * 1000, "src": s, "cnt": n, "desc": d, "st": "drain"}
        return res

    def event(self, kind, o):
        self.times.setdefault((kind, o), []).append(self.now.ps())

    # -- observations
    def seen_comp(self, kind, o, s, d, n):
        if kind == "all_dropped":
            self.start_all_dropped(o, s, d, n)
        else:
            self.mon.check(self.comp_hook is None, "callback-missing", f"{self.name}: no callback for {self.comp_hook}")
            self.comp_hook = (kind, o, s, d, n)

    def seen_cb(self, kind, o, s, d, n):
        mon = self.mon
        mon.event(kind, o, s, n, self.now.ps())
        mon.count(kind)
        if kind == "all_dropped":
            if not self.has_hook[o]:
                self.start_all_dropped(o, s, d, n)
            p = self.pend.get(o)
            self.event(kind, o)
            if mon.check(p is not None and p["st"] == "hook" and (p["src"], p["desc"], p["cnt"]) == (s, d, n), "all-dropped",
                         f"{self.name}: all_dropped callback for {o} ({s},{d!r},{n}), pending: {p}"):
                p["st"] = "done"
                p["end"] = self.now.ps()
                if o == 0:
                    del self.pend[0]
            return
        if self.has_hook[o]:
            mon.equal(self.comp_hook, (kind, o, s, d, n), "hook", f"{self.name}: notification of the component before the callback")
        self.comp_hook = None
        self.event(kind, o)
        if not self.expect and kind == "dropped":
            for c, p in self.pend.items():      # a drained drop passed to the parent
                if c and self.parent[c] == o and p["st"] == "done" and (p["src"], p["desc"], p["cnt"]) == (s, d, n):
                    mon.check(p["end"] == self.now.ps(), "late-drop", f"{self.name}: {c} was all_dropped at {p['end']}, its parent "
                              f"heard of it at {self.now.ps()}")
                    del self.pend[c]
                    self.expect = self.m_drop(o, s, d, n)
                    mon.count("drained")
                    break
        e = self.expect.pop(0) if self.expect else None
        mon.equal((kind, o, s, d, n), e, "notification", f"{self.name}: notification at {self.now.ps()} ps")

    def start_all_dropped(self, o, s, d, n):
        p = self.pend.get(o)
        if self.mon.check(p is not None and p["st"] == "drain" and (p["src"], p["desc"], p["cnt"]) == (s, d, n), "all-dropped",
                          f"{self.name}: all_dropped of {o} ({s},{d!r},{n}) at {self.now.ps()}, pending: {p}"):
            self.mon.check(p["due"] == self.now.ps(), "drain", f"{self.name}: all_dropped of {o} at {self.now.ps()}, its drain ends "
                           f"at {p['due']}")
            p["st"] = "hook"
            p["due"] = self.now.ps() + (self.hooks[o] * 1000 if self.has_hook[o] else 0)


async def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_objection import UVMObjection, UVMObjectionCallback
    from uvm.base.uvm_object_globals import (UVM_ALL_DROPPED, UVM_DISPLAY, UVM_DROPPED, UVM_FATAL, UVM_RAISED)
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequencer import UVMSequencer
    top = UVMCoreService.get().get_root()
    if not getattr(UVMObjection, "vp_started", False):
        UVMObjection.vp_started = True
        await UVMObjection.m_init_objections()
        await Timer(1, "NS")
    now = Clock()
    from cocotb.utils import get_sim_time
    now.ps = lambda: int(get_sim_time("ps") - now.base)
    ix, models = {}, {}

    def comp_class(base):
        class Comp(base):
            def raised(self, objection, source_obj, description, count):
                models[objection].seen_comp("raised", ix[self], ix[source_obj], description, count)

            def dropped(self, objection, source_obj, description, count):
                models[objection].seen_comp("dropped", ix[self], ix[source_obj], description, count)

            async def all_dropped(self, objection, source_obj, description, count):
                models[objection].seen_comp("all_dropped", ix[self], ix[source_obj], description, count)
                if case["hooks"][ix[self]]:
                    await Timer(case["hooks"][ix[self]], "NS")
        return Comp

    class Cb(UVMObjectionCallback):
        def raised(self, objection, obj, source_obj, description, count):
            models[objection].seen_cb("raised", ix[obj], ix[source_obj], description, count)

        def dropped(self, objection, obj, source_obj, description, count):
            models[objection].seen_cb("dropped", ix[obj], ix[source_obj], description, count)

        async def all_dropped(self, objection, obj, source_obj, description, count):
            models[objection].seen_cb("all_dropped", ix[obj], ix[source_obj], description, count)

    # -- the objects
    objs, parent = [top], [None]
    uniq = f"{id(case) % 100000}_"
    for p, nm in case["tree"]:
        base = UVMSequencer if any(k == "seq" and q == len(objs) for k, q in case["others"]) else UVMComponent
        objs.append(comp_class(base)((uniq if p == 0 else "") + nm, objs[p] if p else None))
        parent.append(p)
    for k, q in case["others"]:
        if k == "seq" and q > 0:
            o = UVMSequence(f"seq{len(objs)}")
            o.set_sequencer(objs[q])
        else:
            o, q = UVMObject(f"obj{len(objs)}"), 0
        objs.append(o)
        parent.append(q)
    ix.update({o: i for i, o in enumerate(objs)})
    has_hook = [isinstance(o, UVMComponent) and o is not top for o in objs]
    names = [o.get_full_name() for o in objs]
    ons, mods, out = [], [], Output()
    act = top.get_report_action(UVM_FATAL, "OBJTN_ZERO")
    top.set_report_severity_action(UVM_FATAL, UVM_DISPLAY)
    for k in range(case["objections"]):
        on = UVMObjection(f"on{k}")
        UVMCallbacks.add(on, Cb("cb"))
        m = models[on] = Model(mon, f"on{k}", parent, now, case["drains"], case["hooks"], has_hook)
        ons.append(on)
        mods.append(m)
        for i, d in enumerate(case["drains"]):
            if d:
                on.set_drain_time(objs[i], d) if i else on.set_drain_time(None, d)

    def counts(where):
        for on, m in zip(ons, mods):
            for i, o in enumerate(objs):
                a = (on.get_objection_count(o), on.get_objection_total(o))
                mon.equal(a, (m.src[i], m.tot[i]), "counts", f"{where}: {m.name} count and total of {i} ({names[i]})")
            mon.equal(on.get_objection_total(), m.tot[0], "counts", f"{where}: {m.name} total of the default object")

    def display(on, m, o):
        with out:
            out.take()
            on.display_objections(objs[o]) if o else on.display_objections()
            text = out.take()[1]
        got = re.findall(r"^(\d+) +(\d+) +'([^']*)'$", text, re.M)
        want = []
        if m.tot[o]:
            sel = [i for i in range(len(objs)) if m.tot[i] and (o == 0 or i == o or names[i].startswith(names[o] + "."))]
            want = [(str(m.src[i]), str(m.tot[i]), names[i].split(".")[-1] or "uvm_top") for i in sorted(sel, key=lambda i: names[i])]
        mon.count("displays")
        mon.equal(got, want, "display", f"objections displayed for {names[o]!r}")
        mon.check(f"The total objection count is {m.tot[o]}\n" in text, "display", f"total {m.tot[o]} not shown for {names[o]!r}: {text!r}")

    async def waiter(on, m, o, kind, t0):
        await on.wait_for({"raised": UVM_RAISED, "dropped": UVM_DROPPED, "all_dropped": UVM_ALL_DROPPED}[kind],
                          objs[o] if o or not case["zero_arg"] else None)
        for w in waiting:
            if w[:4] == [on, o, kind, t0] and w[4] is None:
                w[4] = now.ps()
                break

    waiting, desc = [], 0

    def waiters():
        for w in list(waiting):
            on, o, kind, t0, end = w
            ts = [t for t in models[on].times.get((kind, o), []) if t >= t0 + 1]
            want = ts[0] if ts else None
            mon.equal(end, want, "wait-for", f"{models[on].name}.wait_for({kind}, {o}) from {t0} ps; events at "
                      f"{models[on].times.get((kind, o), [])}")
            if want is not None:
                mon.count("released_waiters")
                waiting.remove(w)

    frac = 0
    for dt, ops in case["groups"]:
        frac += 10
        await Timer(int((now() + dt) * 1000 + frac - now.ps() + (1000 if dt == 0 else 0)), "PS")
        later = []
        for op, k, o, arg, gap in ops:
            on, m = ons[k], mods[k]
            desc += 1
            d = f"d{desc}"
            seq = []
            target = objs[o] if o or not case["zero_arg"] else None
            fatal = None
            mon.event(op, k, o, arg if op != "wait" else 0)
            with out:
                out.take()
                if op == "raise":
                    m.expect = m.m_raise(o, o, d, arg)
                    m.cleared = False
                    on.raise_objection(target, d, arg) if arg != 1 else on.raise_objection(target, d)
                elif op in ("drop", "drop_all") and m.src[o] > 0:
                    n = m.src[o] if op == "drop_all" else 1 + arg % m.src[o]
                    m.expect = m.m_drop(o, o, d, n)
                    on.drop_objection(target, d, n) if n != 1 else on.drop_objection(target, d)
                elif op == "over" or op in ("drop", "drop_all") and m.cleared:
                    n = m.src[o] + 1 + arg % 3
                    fatal = not m.cleared
                    mon.count("overdrops")
                    on.drop_objection(target, d, n)
                elif op == "clear":
                    warn = m.tot[0] > 0
                    on.clear()
                    m.src, m.tot, m.pend, m.cleared = [0] * len(objs), [0] * len(objs), {}, True
                    m.event("all_dropped", 0)
                    mon.count("clears")
                    mon.equal(len([r for r in out.reports() if r[1] == "OBJTN_CLEAR"]), int(warn), "clear", "warnings for a clear")
                elif op == "set_drain" and o not in m.pend:
                    on.set_drain_time(target, arg)
                    m.drain[o] = arg
                elif op == "trace":
                    on.trace_mode(arg % 2)
                elif op == "wait":
                    later.append((on, m, o, arg))
                reps = [r for r in out.take()[0] if r[0] in ("UVM_FATAL", "UVM_ERROR")]
            mon.equal([r[:2] for r in reps], [("UVM_FATAL", "OBJTN_ZERO")] if fatal else [], "over-drop", f"{op} of {o}: errors reported")
            mon.check(not m.expect, "notification", f"{m.name}: {op}({o},{arg}) made no notification {m.expect}")
            m.expect = []
            if op == "display":
                display(on, m, o)
            counts(f"after {op}({k},{o},{arg})")
            if gap:
                for _ in range(1 + arg % 3 if isinstance(arg, int) else 1):
                    await NullTrigger()
        await Timer(1, "PS")
        for m in mods:
            for o, p in m.pend.items():
                mon.check(p["due"] >= now.ps() if p["st"] != "done" else False, "missed", f"{m.name}: nothing done at {now.ps()} ps about "
                          f"the drained object {o}: {p}")
        counts(f"at {now.ps()} ps")
        mon.count("quiescent")
        waiters()
        for on, m, o, kind in later:      # waits start when nothing else happens
            await Timer(1, "PS")
            waiting.append([on, o, kind, now.ps(), None])
            spawn(mon, waiter(on, m, o, kind, now.ps()))
    await Timer(1000000, "PS")
    waiters()
    counts("at the end")
    for m in mods:
        mon.check(not m.pend, "missed", f"{m.name}: never drained: {m.pend}")
        mon.check(m.comp_hook is None, "callback-missing", f"{m.name}: no callback for {m.comp_hook}")
    top.set_report_severity_action(UVM_FATAL, act)
    mon.nontrivial = mon.counters.get("all_dropped", 0) > 0
