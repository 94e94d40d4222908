"""A generated UVM test whose components log every phase callback."""
import cocotb
from cocotb.triggers import Timer
from cocotb.utils import get_sim_time

from .uvmrun import random_tree

TOPDOWN = ["build", "final"]
FUNC1 = ["build", "connect", "end_of_elaboration", "start_of_simulation"]
RUNTIME = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure", "pre_main", "main", "post_main",
           "pre_shutdown", "shutdown", "post_shutdown"]
FUNC2 = ["extract", "check", "report", "final"]
TASKS = ["run"] + RUNTIME
ALL = FUNC1 + TASKS + FUNC2
NAMES = ["a", "b", "aa", "env", "agent", "drv", "x1", "y"]


def gen_comps(rng, biggest):
    """[[parent, name, created, impl]...]; 0 is the test. created: build/new; impl: phases implemented (None: all)"""
    comps = []
    for p, n in random_tree(rng, biggest, NAMES):
        impl = None if rng.random() < .6 else sorted(rng.sample(ALL, rng.randint(0, len(ALL))))
        comps.append([p, n, rng.choice(["build", "build", "build_direct", "new"]), impl])
    return comps


class Log:
    def __init__(self):
        self.base = get_sim_time("ps")
        self.events = []
        self.insts = {}         # index -> components constructed

    def now(self):
        return int(get_sim_time("ps") - self.base)

    def add(self, kind, i, phase, *rest):
        self.events.append((kind, i, phase, self.now()) + rest)


def make_test(case, log, task_body, observe=None):
    """Classes for the case's components; returns the class of the test. Index 0 is the test itself.
    task_body(comp, index, phase name, phase) is awaited in every task phase callback; observe(kind, comp, index, phase)
    is called in every callback."""
    from uvm.base.uvm_component import UVMComponent
    from uvm.comps.uvm_test import UVMTest
    from uvm.macros import uvm_component_utils
    comps = [[None, "uvm_test_top", "new", case.get("test_impl")]] + case["comps"]
    kids = {i: [j for j, c in enumerate(comps) if j and c[0] == i] for i in range(len(comps))}
    tag = f"VP{id(log) % 1000000007}"
    classes = {}

    def make(i):
        impl = comps[i][3]
        base = UVMTest if i == 0 else UVMComponent

        def init(self, name, parent):
            base.__init__(self, name, parent)
            log.insts.setdefault(i, []).append(self)
            for j in kids[i]:
                if comps[j][2] == "new":
                    classes[j](comps[j][1], self)

        def create_kids(self):
            for j in kids[i]:
                if comps[j][2] == "build":
                    classes[j].type_id.create(comps[j][1], self)
                elif comps[j][2] == "build_direct":
                    classes[j](comps[j][1], self)
        d = {"__init__": init}

        def func(ph):
            def f(self, phase):
                getattr(base, ph + "_phase")(self, phase)
                log.add("call", i, ph)
                if observe:
                    observe("call", self, i, phase)
                if ph == "build":
                    create_kids(self)
                log.add("return", i, ph)
            return f

        def task(ph):
            async def t(self, phase):
                log.add("call", i, ph)
                if observe:
                    observe("call", self, i, phase)
                await task_body(self, i, ph, phase)
                log.add("return", i, ph)
            return t
        for ph in ALL:
            if impl is not None and ph not in impl and not (ph == "build" and any(comps[j][2] != "new" for j in kids[i])):
                continue
            d[ph + "_phase"] = task(ph) if ph in TASKS else func(ph)

        def hook(kind):
            def h(self, phase):
                getattr(base, "phase_" + kind)(self, phase)
                log.add(kind, i, phase.get_name())
                if observe:
                    observe(kind, self, i, phase)
            return h
        for kind in ("started", "ended", "ready_to_end"):
            d["phase_" + kind] = hook(kind)
        cls = type(f"{tag}_{i}", (base,), d)
        uvm_component_utils(cls)
        classes[i] = cls
        return cls
    for i in range(len(comps)):
        make(i)
    return classes[0], comps
