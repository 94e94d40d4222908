"""The oracle keeps every resource ever set in the order of its name's queue (override goes to the front, priority changes move)
with its own matcher for globs and regular expressions, and predicts each lookup, read, write, access count and list of visible
resources. Lookups for which a glob matches only a part of the scope are not judged here: the library accepts them (known finding,
probed separately). Not covered: lookup by type (not implemented by the library)."""
import re

from vp.monitor import Output
from vp.uvmrun import glob

SIM = False
BATCH = 20
CASES = {"quick": 3000, "thorough": 90000}
TECHNIQUE = "runtime monitoring: lookups, reads and access records of random histories compared online with a reference model"
LEVEL_NOTE = "Random histories on the real resource pool and database; exploration, no claim beyond what ran."
RULE = ("18-60 operations on a fresh pool: set, set with override, default resources, precedence and priority changes, writes by "
        "several accessors, read-only switches, lookups by glob and regular-expression scopes; non-trivial: a lookup had several "
        "candidates; distinct: hash of the lookup results")
REQUIRE = {"lookups": 10000, "misses": 2000, "contested": 2000, "refused_writes": 150, "regex_hits": 500, "equal_values": 1500, "audited": 5000,
           "sorted_lists": 800, "scope_lists": 1000}
ASSUMPTIONS = []
SEG = ["aa", "ab", "ba", "b0"]
POOL = []
NAMES = ["n", "n", "nn", "m"]
PROBES = [{"probe": "substring-scope"}]


def scope(rng):
    return rng.choice(POOL)


def pattern(rng):
    s = scope(rng)
    k = rng.random()
    if k < .25:
        return s
    if k < .45:
        return "*"
    if k < .57:
        return rng.choice(["/^aa/", "/b0$/", "/a[ab]\\.b/", "/^.*\\.ba\\..*$/", "/a/", "/(aa|ba)$/"])
    i, j = sorted(rng.randrange(len(s) + 1) for _ in range(2))
    if k < .63:
        return s[:i] + "?" + s[i + 1:]
    if k < .7:
        return s[:i] + "*"
    if k < .8:
        return "*" + s[i:]
    return s[:i] + "*" + s[j:]


def gen(rng, tier):
    POOL[:] = [".".join(rng.choice(SEG) for _ in range(3)) for _ in range(rng.randint(2, 5))]
    ops = []
    for _ in range(rng.randint(18, 40 if tier == "quick" else 60)):
        k = rng.random()
        n = rng.choice(NAMES)
        if len(ops) < 8:
            k *= .24
        if k < .12:
            ops.append(["db_set", pattern(rng), n, rng.randint(0, 9), rng.randint(-1, 2)])
        elif k < .2:
            ops.append(["set", pattern(rng), n, rng.randint(0, 9), rng.choice([0, 1, 2, 3])])
        elif k < .24:
            ops.append(["default", pattern(rng), n])
        elif k < .3:
            ops.append(["precedence", rng.randint(0, 50), rng.choice([900, 999, 1000, 1001, 2000])])
        elif k < .36:
            ops.append(["priority", rng.randint(0, 50), rng.randint(0, 1)])
        elif k < .42:
            ops.append(["readonly", rng.randint(0, 50), rng.choice([1, 1, 0])])
        elif k < .5:
            ops.append(["write", rng.randint(0, 50), rng.randint(0, 9), rng.randint(-1, 2)])
        elif k < .57:
            ops.append(["write_by_name", scope(rng), n, rng.randint(0, 9), rng.randint(-1, 2)])
        elif k < .75:
            ops.append(["read_by_name", scope(rng), n, rng.randint(-1, 2)])
        elif k < .83:
            ops.append(["get_by_name", scope(rng), rng.choice(NAMES + ["none"])])
        elif k < .9:
            ops.append(["lookup", scope(rng), n])
        elif k < .94:
            ops.append(["sort"])
        elif k < .97:
            ops.append(["scope", scope(rng)])
        else:
            ops.append(["accesses", rng.randint(0, 50)])
    ops.append(["all_accesses"])
    return {"ops": ops}


def full_match(p, s):
    if p == "":
        return True
    if len(p) > 1 and p[0] == p[-1] == "/":
        return re.search(p[1:-1], s) is not None
    return glob(p, s)


def loose_match(p, s):
    """the whole scope or any part of it"""
    if full_match(p, s):
        return True
    return not (len(p) > 1 and p[0] == p[-1] == "/") and glob("*" + p + "*", s)


def setup():
    import uvm   # noqa


def run(case, mon):
    from uvm.base.uvm_resource import UVMResource, UVMResourcePool, UVMResourceBase
    from uvm.base.uvm_resource_db import UVMResourceDb
    from uvm.base.uvm_component import UVMComponent
    UVMResourcePool.rp = UVMResourcePool()
    if case.get("probe"):
        with Output():
            UVMResourceDb.set("env.driver", "pif", 1)
            got = []
            if UVMResourceDb.read_by_name("uvm_test_top.env.driver.sub", "pif", got):
                mon.findings["substring-scope"] = "a resource set for scope 'env.driver' is visible in 'uvm_test_top.env.driver.sub'"
        return
    out = Output()
    res = []        # {"r","name","pat","val","prec","ro","acc"}
    queue = {}      # name -> resources, first wins
    contested = False
    with out:
        from uvm.base.uvm_coreservice import UVMCoreService
        top = UVMCoreService.get().get_root()
        accs = [top.m_children.get(f"acc{i}") or UVMComponent(f"acc{i}", None) for i in range(3)]

        def accessor(i):
            return None if i < 0 else accs[i]

        def rec(e, i, what):
            key = "<empty>" if i < 0 else f"acc{i}"
            if i < 0 and what == "w":
                return
            e["acc"].setdefault(key, {"r": 0, "w": 0})[what] += 1

        def new(r, name, pat, val, front):
            e = {"r": r, "name": name, "pat": pat, "val": val, "prec": 1000, "ro": 0, "acc": {}}
            res.append(e)
            q = queue.setdefault(name, [])
            q.insert(0 if front else len(q), e)
            return e

        def visible(sc, name):
            """matching resources in queue order, or None when a glob matches only part of the scope"""
            q = queue.get(name, [])
            if any(loose_match(e["pat"], sc) != full_match(e["pat"], sc) for e in q):
                mon.count("not_judged")
                return None
            m = [e for e in q if full_match(e["pat"], sc)]
            return m

        def best(m):
            nonlocal contested
            if not m:
                mon.count("misses")
                return None
            if len(m) > 1:
                contested = True
                mon.count("contested")
            w = max(m, key=lambda e: (e["prec"], -m.index(e)))
            mon.count("regex_hits", w["pat"][:1] == "/")
            return w

        def same(got, want, who):
            if isinstance(want, (list, bool)):
                mon.count("equal_values")
                mon.check(type(got) is type(want) and (got is want or not isinstance(want, list)), "same-value", "the value read is the very value written", got=got, want=want)

        def write(e, val, who, do):
            do()
            reps = [x[1] for x in out.take()[0] if x[0] == "UVM_ERROR"]
            if e["ro"]:
                mon.equal(reps, ["resource"], "read-only-report", f"write to read-only {e['name']}")
                mon.count("refused_writes")
            else:
                mon.equal(reps, [], "write-report")
                if e["val"] != val or type(e["val"]) is not type(val) or isinstance(val, list) and e["val"] is not val:
                    rec(e, who, "w")
                e["val"] = val
            mon.equal(e["r"].val, e["val"], "value", "value after a write")
            same(e["r"].val, e["val"], who)

        def show(m):
            return [(e["pat"], e["val"], e["prec"]) for e in m]

        for op in case["ops"]:
            kind = op[0]
            at = {"db_set": 3, "set": 3, "write": 2, "write_by_name": 3}.get(kind)
            if at is not None and op[at] >= 6:      # lists that are equal but not the same, and a flag equal to a number
                op = op[:at] + [op[at] == 6 or [op[at] % 2]] + op[at + 1:]
            out.take()
            if kind == "db_set":
                UVMResourceDb.set(op[1], op[2], op[3], accessor(op[4]))
                r = UVMResourcePool.get().rtab[op[2]][-1]
                e = new(r, op[2], op[1], op[3], False)
                rec(e, op[4], "w")
                mon.equal(r.val, op[3], "value", "set")
            elif kind == "set":
                r = UVMResource(op[2], op[1])
                r.write(op[3])
                if op[4]:
                    r.set_override(op[4])
                else:
                    r.set()
                new(r, op[2], op[1], op[3], op[4] & 2)
            elif kind == "default":
                r = UVMResourceDb.set_default(op[1], op[2])
                mon.equal(r.get_name(), op[2], "default-name")
                new(r, op[2], op[1], None, False)
            elif kind in ("precedence", "priority", "readonly", "write", "accesses"):
                if not res:
                    continue
                e = res[op[1] % len(res)]
                if kind == "precedence":
                    e["prec"] = e["r"].precedence = op[2]
                elif kind == "priority":
                    UVMResourcePool.get().set_priority_name(e["r"], op[2])
                    q = queue[e["name"]]
                    q.remove(e)
                    q.insert(0 if op[2] == 0 else len(q), e)
                    mon.equal([x[1] for x in out.take()[0]], [], "priority-report")
                elif kind == "readonly":
                    e["ro"] = op[2]
                    e["r"].set_read_only() if op[2] else e["r"].set_read_write()
                    mon.equal(e["r"].is_read_only(), bool(op[2]), "is-read-only")
                elif kind == "write":
                    write(e, op[2], op[3], lambda: e["r"].write(op[2], accessor(op[3])))
            elif kind == "write_by_name":
                m = visible(op[1], op[2])
                if m is None:
                    continue
                w = best(m)
                if w is None:
                    mon.equal(UVMResourceDb.write_by_name(op[1], op[2], op[3]), 0, "write-miss")
                else:
                    ok = []
                    write(w, op[3], op[4], lambda: ok.append(UVMResourceDb.write_by_name(op[1], op[2], op[3], accessor(op[4]))))
                    mon.equal(bool(ok[0]), True, "write-hit")
                for e in res:
                    mon.equal(e["r"].val, e["val"], "value", f"{op}: value of the resource {e['pat']}")
            elif kind == "read_by_name":
                m = visible(op[1], op[2])
                if m is None:
                    continue
                w = best(m)
                got = []
                ok = UVMResourceDb.read_by_name(op[1], op[2], got, accessor(op[3]))
                mon.count("lookups")
                mon.event("read", op[1], op[2], str(got))
                if w:
                    rec(w, op[3], "r")
                mon.equal((bool(ok), got), (bool(w), [w["val"]] if w else []), "read", f"{op} with queue {show(queue.get(op[2], []))}")
            elif kind == "get_by_name":
                m = visible(op[1], op[2])
                if m is None:
                    continue
                w = best(m)
                got = UVMResourceDb.get_by_name(op[1], op[2], False)
                mon.count("lookups")
                mon.event("get", op[1], op[2], w and show([w]))
                mon.check(got is (w["r"] if w else None), "get", f"{op} returned {got and (got.get_scope(), got.val)}, expected "
                          f"{w and show([w])} of {show(queue.get(op[2], []))}")
            elif kind == "lookup":
                m = visible(op[1], op[2])
                if m is None:
                    continue
                q = UVMResourcePool.get().lookup_name(op[1], op[2], None, False)
                mon.count("lookups")
                mon.check([id(x) for x in q] == [id(e["r"]) for e in m], "lookup", f"{op}: {[(x.get_scope(), x.val) for x in q]}, "
                          f"expected {show(m)}")
            elif kind == "sort":
                q = [e["r"] for e in res if e["name"] == "n"]
                s = UVMResourcePool.sort_by_precedence(list(q))
                want = sorted(q, key=lambda r: -r.precedence)
                mon.count("sorted_lists", len(q) > 1)
                mon.check([id(x) for x in s] == [id(x) for x in want], "sort", f"sorted to precedences {[x.precedence for x in s]} "
                          f"from {[x.precedence for x in q]} (equal ones keep their order)")
            elif kind == "scope":
                ms = [visible(op[1], n) for n in queue]
                if any(m is None for m in ms):
                    continue
                q = UVMResourcePool.get().lookup_scope(op[1])
                got = sorted(id(q.get(i)) for i in range(q.size()))
                mon.count("scope_lists")
                mon.check(got == sorted(id(e["r"]) for m in ms for e in m), "scope-list",
                          f"lookup_scope({op[1]}) found {len(got)} resources, expected {[show(m) for m in ms]}")
            for e in (res if kind == "all_accesses" else [res[op[1] % len(res)]] if kind == "accesses" else []):
                got = {k: {"r": a.read_count, "w": a.write_count} for k, a in e["r"].access.items()}
                got = {k: a for k, a in got.items() if k != "<empty>" or a["r"]}
                mon.equal(got, e["acc"], "accesses", f"access record of {e['pat']}")
                mon.count("audited")
    mon.nontrivial = contested
