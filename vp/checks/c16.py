"""The oracle records every set in execution order with its full path pattern, calling context and precedence (depth below the top
during build, the default otherwise), and predicts each get, each existence query and each automatically configured field with
its own glob matcher. Not covered: selection by value type, wildcards in field names, wait_modified (not implemented by the
library) and indexed field names."""
import re

from vp.uvmrun import glob, random_tree, run_uvm

SIM = True
BATCH = 1
CASES = {"quick": 700, "thorough": 14000}
TECHNIQUE = "runtime monitoring: every configuration lookup of a running test compared online with a reference model of precedence"
LEVEL_NOTE = "Random hierarchies and histories of sets and gets through a whole test run; exploration, no claim beyond what ran."
RULE = ("a tree of 2-13 components with similar names; before the run and in the build, connect and run phases each component "
        "performs random sets (contexts none, itself, its parent or the top; exact, wildcard and regular-expression paths) and "
        "gets, and configures fields automatically; non-trivial: a lookup had several matches; distinct: hash of the lookups")
REQUIRE = {"gets": 8000, "misses": 800, "contested": 3000, "higher_context_won": 300, "reset_won": 300, "auto_fields": 3000,
           "auto_changed": 1000, "lists": 200}
ASSUMPTIONS = ["components are built in the order their parents create them (property C01)"]
NAMES = ["a", "ab", "b", "env"]
FIELDS = ["f", "f", "bf", "ff", "s", "o"]      # "a" + "bf" == "ab" + "f"


def pattern(rng):
    k = rng.random()
    n = rng.choice(NAMES)
    if k < .25:
        return "*"
    if k < .3:
        return rng.choice(NAMES) + "*"
    if k < .38:
        return "*" + n
    if k < .45:
        return "*." + n
    if k < .5:
        return "?"
    if k < .6:
        return n + "." + rng.choice(NAMES)
    if k < .65:
        return n + ".*"
    if k < .7:
        return ""
    return n


def gen_op(rng, n):
    if rng.random() < .5:
        ctx = rng.choice(["none", "self", "self", "parent", "top"])
        if ctx == "none":
            k = rng.random()
            if k < .15:
                pat = rng.choice(["/a/", "/^uvm_test_top.env/", "/b$/", "/[ab]1?$/", "/x.*a/"])
            elif k < .2:
                pat = ""
            elif k < .6:
                pat = ["node", rng.randint(0, n)]
            else:
                pat = "uvm_test_top." + pattern(rng) if rng.random() < .6 else rng.choice(["*", "*", "*a*", "uvm_test_top*"])
        else:
            pat = pattern(rng)
        return ["set", ctx, pat, rng.choice(FIELDS), rng.randint(0, 9)]
    ctx = rng.choice(["self", "self", "self", "none", "parent"])
    k = rng.random()
    inst = "" if k < .7 else ["node", rng.randint(0, n)] if k < .75 else rng.choice(NAMES)      # a full name is relative too
    if ctx == "none":
        inst = ["node", rng.randint(0, n)]
    return ["get", ctx, inst, rng.choice(FIELDS)]


def gen(rng, tier):
    tree = random_tree(rng, 8 if tier == "quick" else 12, NAMES)
    n = len(tree)
    dens = rng.choice([2, 4, 6])
    ops = {}
    for i in range(n + 1):
        for ph in ["pre", "post", "connect", "run"]:
            ops[f"{i}/{ph}"] = [gen_op(rng, n) for _ in range(rng.randint(0, dens))]
    return {"tree": tree, "before": [["set", "none", gen_op(rng, n)[2], rng.choice(FIELDS), rng.randint(0, 9)]
                                     for _ in range(rng.randint(0, 3))], "ops": ops}


async def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_object_globals import UVM_DEFAULT
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.macros.uvm_object_defines import (uvm_component_utils_begin, uvm_component_utils_end, uvm_field_int,
                                               uvm_field_string, uvm_field_object)
    tree = [[None, "uvm_test_top"]] + case["tree"]
    paths = []
    for p, n in tree:
        paths.append(n if p is None else paths[p] + "." + n)
    depth = [p.count(".") + 1 for p in paths]
    objs = [UVMObject(f"obj{i}") for i in range(10)]
    model = []           # {"ctx","pat","field","val","prec","time"}; time: order of the last set
    clock = [0]
    nontrivial = [False]

    def value(field, v):
        if field == "bf" and v % 2:
            return [v % 3]               # equal values that are not the same object
        return v if field in ("f", "ff", "bf") else f"v{v}" if field == "s" else objs[v]

    def matches(e, path):
        p = e["pat"]
        if p == "":
            return True
        if len(p) > 1 and p[0] == p[-1] == "/":
            return re.search(p[1:-1], path) is not None
        return glob(p, path)

    def lookup(path, field):
        c = [e for e in model if e["field"] == field and matches(e, path)]
        if not c:
            return None
        win = max(c, key=lambda e: (e["prec"], e["time"]))
        if len(c) > 1:
            nontrivial[0] = True
            mon.count("contested")
            if max(c, key=lambda e: e["time"]) is not win:
                mon.count("higher_context_won")
            if win["resets"]:
                mon.count("reset_won")
        return win

    def resolve(x):
        return paths[x[1] % len(paths)] if isinstance(x, list) else x

    def do(ops, comp, i, building):
        for op in ops:
            ctx = {"none": None, "self": comp, "parent": comp and comp.get_parent(),
                   "top": UVMCoreService.get().get_root()}[op[1]]
            ctx_path = {"none": "", "self": paths[i] if comp else "", "top": "",
                        "parent": paths[tree[i][0]] if comp and i else ""}[op[1]]
            ctx_depth = 0 if ctx_path == "" else ctx_path.count(".") + 1
            inst = resolve(op[2])
            full = ctx_path if inst == "" else inst if ctx_path == "" else ctx_path + "." + inst
            clock[0] += 1
            if op[0] == "set":
                v = value(op[3], op[4])
                UVMConfigDb.set(ctx, inst, op[3], v)
                prec = 1000 - (ctx_depth if building else 0)
                for e in model:
                    if (e["ctx"], e["pat"], e["field"]) == (ctx_path, full, op[3]):
                        e.update(val=v, prec=prec, time=clock[0], resets=e["resets"] + 1)
                        break
                else:
                    model.append({"ctx": ctx_path, "pat": full, "field": op[3], "val": v, "prec": prec, "time": clock[0],
                                  "resets": 0})
                continue
            want = lookup(full, op[3])
            got = []
            ok = UVMConfigDb.get(ctx, inst, op[3], got)
            mon.count("gets")
            mon.event("get", full, op[3], str(got))
            mon.equal(UVMConfigDb.exists(ctx, inst, op[3]), want is not None, "exists", f"exists({full!r}, {op[3]!r})")
            if want is None:
                mon.count("misses")
            if got and isinstance(got[0], list):
                mon.count("lists")
                mon.check(want is not None and got[0] is want["val"], "same-value", "the object read is the very object set last")
            mon.equal((bool(ok), got), (want is not None, [want["val"]] if want else []), "get",
                      f"get of {op[3]!r} at {full!r}; settings in order: "
                      + str([(e['ctx'], e['pat'], e['val'], e['prec'], e['time']) for e in model if e["field"] == op[3]]))

    class C16Comp(UVMComponent):
        def __init__(self, name, parent, i=0):
            super().__init__(name, parent)
            self.i = i
            self.f, self.ff, self.s, self.o = -1, -1, "", None

        def build_phase(self, phase):
            do(case["ops"][f"{self.i}/pre"], self, self.i, True)
            expect = {}
            for name, init in (("f", -1), ("ff", -1), ("s", ""), ("o", None)):
                e = lookup(paths[self.i], name)
                expect[name] = e["val"] if e else init
                mon.count("auto_changed", e is not None)
            super().build_phase(phase)
            for name in expect:
                mon.count("auto_fields")
                mon.equal(getattr(self, name), expect[name], "auto", f"field {name} of {paths[self.i]} after automatic "
                          "configuration; settings: " + str([(e['ctx'], e['pat'], e['val'], e['prec'], e['time'])
                                                             for e in model if e["field"] == name]))
            for j, (p, n) in enumerate(tree):
                if p == self.i:
                    C16Comp(n, self, j)
            do(case["ops"][f"{self.i}/post"], self, self.i, True)

        def connect_phase(self, phase):
            do(case["ops"][f"{self.i}/connect"], self, self.i, False)

        async def run_phase(self, phase):
            do(case["ops"][f"{self.i}/run"], self, self.i, False)
    uvm_component_utils_begin(C16Comp)
    uvm_field_int("f", UVM_DEFAULT)
    uvm_field_int("ff", UVM_DEFAULT)
    uvm_field_string("s", UVM_DEFAULT)
    uvm_field_object("o", UVM_DEFAULT)
    uvm_component_utils_end(C16Comp)
    do(case["before"], None, 0, False)
    await run_uvm(C16Comp)
    mon.nontrivial = nontrivial[0]
