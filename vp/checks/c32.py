"""The oracle is the access rule itself (a flag and a value per object): after every call the returned value, the errors reported
and the value readable are compared. Values are compared by identity, several objects live at once so that state shared
between them shows."""
from vp.monitor import Output

SIM = False
BATCH = 50
CASES = {"quick": 6000, "thorough": 200000}
TECHNIQUE = "runtime monitoring: every access compared online with a reference model of the policy, error reports counted"
LEVEL_NOTE = "Random access histories on the real objects; exploration, no claim beyond what ran."
RULE = ("5-40 random set, get, try_set, try_get, lock, unlock, is_locked, copy and print calls on 1-4 access-policy objects created directly "
        "or by the factory; non-trivial: an access was refused; distinct: hash of calls and results")
REQUIRE = {"sets": 10000, "gets": 10000, "refused": 5000, "try_gets": 3000, "try_sets": 3000, "locks": 2000}
ASSUMPTIONS = []
VALUES = [0, 1, None, "", "x", [1], {"a": 1}, 3.5, (), object()]


def gen(rng, tier):
    kinds = [rng.choice(["get_to_lock", "simple_lock", "set_before_get"]) for _ in range(rng.randint(1, 4))]
    ops = [[rng.randrange(len(kinds)), rng.choice(["set", "set", "set", "try_set", "get", "get", "lock", "unlock", "try_get", "is_locked", "copy",
                                                   "compare", "str"]), rng.randrange(len(VALUES))] for _ in range(rng.randint(5, 40))]
    return {"kinds": kinds, "factory": rng.random() < .4, "ops": ops}


def setup():
    import uvm  # noqa


def run(case, mon):
    from uvm.dap.uvm_get_to_lock_dap import uvm_get_to_lock_dap
    from uvm.dap.uvm_simple_lock_dap import uvm_simple_lock_dap
    from uvm.dap.uvm_set_before_get_dap import uvm_set_before_get_dap
    T = {"get_to_lock": uvm_get_to_lock_dap, "simple_lock": uvm_simple_lock_dap, "set_before_get": uvm_set_before_get_dap}
    objs = [T[k].type_id.create(f"o{i}") if case["factory"] else T[k](f"o{i}") for i, k in enumerate(case["kinds"])]
    st = [{"v": None, "locked": False, "set": False} for _ in objs]
    refused = 0
    out = Output()
    with out:
        for j, op, v in case["ops"]:
            o, s, k = objs[j], st[j], case["kinds"][j]
            v = VALUES[v]
            errs, has, want = 0, False, None
            r = None
            if op == "set":
                mon.count("sets")
                r = o.set(v)
                if s["locked"]:
                    errs = 1
                else:
                    s["v"], s["set"] = v, True
            elif op == "get":
                mon.count("gets")
                r, has, want = o.get(), True, s["v"]
                if k == "get_to_lock":
                    s["locked"] = True
                if k == "set_before_get" and not s["set"]:
                    errs = 1
            elif op == "try_set":
                mon.count("try_sets")
                ok = o.try_set(v)
                mon.equal(bool(ok), not s["locked"], "try_set", f"success of try_set of {k}")
                if s["locked"]:
                    refused += 1
                else:
                    s["v"], s["set"] = v, True
            elif op == "try_get" and k != "set_before_get":
                mon.count("try_gets")
                lst = []
                mon.check(bool(o.try_get(lst)) and len(lst) == 1, "try_get", "a try_get of a locking policy gave nothing")
                r, has, want = lst[0], True, s["v"]
                s["locked"] = s["locked"] or k == "get_to_lock"
            elif op == "try_get":
                mon.count("try_gets")
                lst = []
                ok = o.try_get(lst)
                mon.equal(bool(ok), s["set"], "try_get", "success of try_get")
                if s["set"]:
                    r, has, want = lst[0] if len(lst) == 1 else lst, True, s["v"]
                else:
                    mon.equal(lst, [], "try_get", "output of a failed try_get")
                    refused += 1
            elif op in ("lock", "unlock", "is_locked") and k == "simple_lock":
                mon.count("locks")
                r = getattr(o, op)()
                if op == "is_locked":
                    mon.equal(bool(r), s["locked"], "is_locked", "is_locked")
                else:
                    s["locked"] = op == "lock"
            elif op == "copy":
                src = T[k]("src")
                src.set(VALUES[4])
                try:
                    o.copy(src)      # not supported by these objects: must not change the value
                except Exception:
                    pass
                out.take()
            elif op == "compare":
                try:
                    o.compare(T[k]("other"))
                except Exception:
                    pass
                out.take()
            elif op == "str":
                str(o.convert2string()), o.sprint()
            else:
                continue
            reps = [x for x in out.take()[0] if x[0] in ("UVM_ERROR", "UVM_FATAL")]
            refused += errs
            mon.equal(len(reps), errs, "error", f"errors reported by {op} of {k} in state {s}: {reps}")
            if has:
                mon.check(r is want, "value", f"{op} of {k} returned {r!r}, expected {want!r}")
            mon.event("op", j, op, str(v)[:8], errs)
        for o, s, k in zip(objs, st, case["kinds"]):
            mon.check(o.get() is s["v"], "value", f"final value of {k}, expected {s['v']!r}")
    mon.count("refused", refused)
    mon.nontrivial = refused > 0
