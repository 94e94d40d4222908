"""The oracle is a Python dict kept in insertion order and a Python list; every operation's result, report and the complete
contents afterwards are compared. Iteration is checked over unchanged pools and forwards while deleting the key just visited.
Not covered: keys that compare equal but differ (1 and True)."""
from vp.monitor import Output

SIM = False
BATCH = 50
CASES = {"quick": 6000, "thorough": 200000}
TECHNIQUE = "runtime monitoring: every operation compared online with a dict/list reference model, contents re-read after each"
LEVEL_NOTE = "Random operation histories on the real containers; exploration, no claim beyond what ran."
RULE = ("10-80 random operations on a pool (plain, with default constructor, object/event/barrier pools) or a queue, with legal and "
        "illegal arguments; non-trivial: at least 5 successful changes; distinct: hash of operations and results")
REQUIRE = {"pool_ops": 20000, "queue_ops": 20000, "refused": 3000, "iterations": 1000, "copies": 1000, "delete_while_iterating": 300}
ASSUMPTIONS = []


def gen(rng, tier):
    n = rng.randint(10, 40 if tier == "quick" else 80)
    kind = rng.choice(["pool", "tpool", "opool", "epool", "bpool", "queue", "queue", "queue"])
    ops = []
    for _ in range(n):
        if kind == "queue":
            ops.append([rng.choice(["push_back", "push_back", "push_front", "insert", "insert", "delete", "pop_front", "pop_back", "get",
                                    "index", "slice", "setitem", "size", "front", "back", "find", "find_index", "clear", "copy",
                                    "clone", "iter", "str"]), rng.randint(-3, 9), rng.randint(0, 9)])
        else:
            ops.append([rng.choice(["add", "add", "add", "get", "exists", "delete", "delete", "num", "forward", "backward", "clear",
                                    "copy", "clone", "item", "delete_iter", "zigzag", "print", "setitem", "keys"]),
                        rng.randint(0, 7), rng.randint(0, 99)])
    return {"kind": kind, "ops": ops}


def setup():
    import uvm  # noqa


def run(case, mon):
    out = Output()
    with out:
        (queue_case if case["kind"] == "queue" else pool_case)(case, mon, out)
    mon.nontrivial = mon.counters.get("changes", 0) >= 5


def attempt(f):
    try:
        return "value", f()
    except Exception as e:      # a refusal by exception is checked by the caller
        return "raised", e


def queue_case(case, mon, out):
    from uvm.base.uvm_queue import UVMQueue
    q, m = UVMQueue("q"), []
    copies = []
    for op, i, v in case["ops"]:
        out.take()
        mon.count("queue_ops")
        n = len(m)
        refused, want_report = False, None
        r = None
        if op == "push_back":
            q.push_back(v)
            m.append(v)
        elif op == "push_front":
            q.push_front(v)
            m.insert(0, v)
        elif op == "insert":
            if 0 <= i < n:
                m.insert(i, v)
            else:
                refused = True
            q.insert(i, v)
        elif op == "delete":
            if 0 <= i < n:
                m.pop(i)
            elif i == -1:
                continue
            else:
                refused = True
            q.delete(i)
        elif op == "clear":
            if v > 2:
                continue
            q.delete()
            m.clear()
        elif op in ("pop_front", "pop_back"):
            k, r = attempt(getattr(q, op))
            if n:
                mon.equal((k, r), ("value", m.pop(0 if op == "pop_front" else -1)), "pop", op)
            else:
                mon.check(k == "raised", "refuse-pop", f"{op} on an empty queue returned {r!r}")
                mon.count("refused")
        elif op == "get":
            r = q.get(i)
            if 0 <= i < n:
                mon.equal(r, m[i], "get", f"get({i})")
            else:
                refused = True
        elif op == "index":
            k, r = attempt(lambda: q[i])
            if 0 <= i < n:
                mon.equal((k, r), ("value", m[i]), "index", f"[{i}]")
            elif i >= n:
                mon.check(k == "raised", "refuse-index", f"[{i}] of a queue of {n} returned {r!r}")
                mon.count("refused")
        elif op == "slice":
            a, b = sorted((max(i, 0) % (n + 1), v % (n + 1)))
            mon.equal(list(q[a:b]), m[a:b], "slice", f"[{a}:{b}]")
        elif op == "setitem":
            if i < 0:
                continue
            k, r = attempt(lambda: q.__setitem__(i, v))
            if i < n:
                m[i] = v
                mon.equal(k, "value", "setitem", f"[{i}]={v}: {r!r}")
            else:
                mon.equal(k, "raised", "refuse-setitem", f"[{i}] of a queue of {n}")
                mon.count("refused")
        elif op == "front":
            mon.equal(q.front(), m[0] if m else None, "front")
        elif op == "back":
            mon.equal(q.back(), m[-1] if m else None, "back")
        elif op == "find":
            r = q.find_with(lambda x: x % 3 == i % 3)
            mon.equal([r.get(j) for j in range(r.size())], [x for x in m if x % 3 == i % 3], "find")
        elif op == "find_index":
            mon.equal(q.find_first_index(lambda x: x == v), m.index(v) if v in m else -1, "find-index")
        elif op == "iter":
            mon.equal([x for x in q], m, "iter")
            mon.count("iterations")
        elif op == "str":
            mon.equal(q.convert2string(), str(m), "str")
        elif op in ("copy", "clone"):
            if op == "copy":
                c = UVMQueue("c")
                c.push_back(77)
                c.copy(q)
            else:
                c = q.clone()
            copies.append((c, list(m)))
            mon.count("copies")
            if v % 3 == 0:        # go on with the copy: the original is now the one that must not change
                copies[-1] = (q, list(m))
                q = c
        reps = [x[1] for x in out.take()[0]]
        if refused:
            mon.count("refused")
            mon.check(len(reps) == 1 and reps[0].startswith("QUEUE"), "refuse-report", f"{op}({i}) on a queue of {n} reported {reps}")
        else:
            mon.equal(reps, [], "report", f"{op}({i}, {v}) on a queue of {n}")
        mon.count("changes", m != [] and op in ("push_back", "push_front", "insert", "pop_front", "pop_back"))
        mon.event(op, i, v, str(r) if op != "find" else "")
        mon.equal((q.size(), len(q), [q.get(j) for j in range(q.size())]), (len(m), len(m), m), "contents", f"after {op}({i}, {v})")
        for c, snap in copies:
            mon.equal([c.get(j) for j in range(c.size())], snap, "copy-independent", f"a copy made earlier, after {op}({i}, {v})")


def pool_case(case, mon, out):
    from uvm.base.uvm_pool import UVMPool, UVMObjectStringPool, UVMEventPool, UVMBarrierPool
    from uvm.base.uvm_event import UVMEvent
    from uvm.base.uvm_barrier import UVMBarrier
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_printer import UVMLinePrinter
    kind = case["kind"]
    p = {"pool": lambda: UVMPool("p"), "tpool": lambda: UVMPool("p", T=list), "opool": lambda: UVMObjectStringPool("p"),
         "epool": lambda: UVMEventPool("p"), "bpool": lambda: UVMBarrierPool("p")}[kind]()
    item = {"opool": UVMObject, "epool": UVMEvent, "bpool": UVMBarrier}.get(kind)
    m, copies = {}, []
    strings = kind in ("opool", "epool", "bpool")
    if strings:
        g, h = type(p).get_global("some_key"), type(p).get_global("some_key")
        mon.check(g is h and isinstance(g, item), "global", f"{type(p).__name__}.get_global gave {type(g).__name__}, then the "
                  f"{'same' if g is h else 'another'} object")

    def forward(stop=None):
        keys, k = [], p.first()
        while k is not None and k is not False and len(keys) < 50:
            keys.append(k)
            if not p.has_next():
                break
            k = p.next()
        return keys

    for op, i, v in case["ops"]:
        out.take()
        mon.count("pool_ops")
        key = f"k{i}" if strings or kind == "pool" and i % 2 else i
        val = item(f"x{v}") if item else v
        refused = False
        r = None
        if op in ("add", "setitem"):
            if op == "add":
                p.add(key, val)
            else:
                p[key] = val
            m[key] = val
        elif op == "get":
            r = p.get(key)
            if key in m:
                mon.check(r is m[key], "get", f"get({key!r}) returned {r!r}, expected {m[key]!r}")
            elif kind == "pool":
                mon.equal(r, None, "get-missing")
            elif kind == "tpool":
                mon.equal(r, [], "get-default")
                m[key] = r
            else:
                mon.check(type(r) is item and r.get_name() == key, "get-create", f"get({key!r}) made {r!r}")
                m[key] = r
        elif op == "item":
            k, r = attempt(lambda: p[key])
            if key in m:
                mon.check(k == "value" and r is m[key], "item", f"[{key!r}] gave {r!r}")
            else:
                mon.equal(k, "raised", "refuse-item")
                mon.count("refused")
                r = None
        elif op == "exists":
            mon.equal((bool(p.exists(key)), key in p), (key in m, key in m), "exists", f"exists({key!r})")
        elif op == "delete":
            refused = strings and key not in m
            p.delete(key)
            m.pop(key, None)
        elif op == "clear":
            if v < 70 or strings:
                continue
            p.delete()
            m.clear()
        elif op == "num":
            mon.equal((p.num(), len(p), bool(p.has_first()), bool(p.has_last())), (len(m), len(m), bool(m), bool(m)), "num")
        elif op == "keys":
            mon.equal((list(p.keys()), list(p.key_list())), (list(m), list(m)), "keys")
        elif op == "forward":
            mon.equal(forward(), list(m), "forward", "keys visited by first/next")
            mon.check(p.next() is None or not m, "next-at-end")
            mon.count("iterations")
        elif op == "backward":
            keys = []
            if m:
                keys.append(p.last())
                while p.has_prev() and len(keys) < 50:
                    keys.append(p.prev())
                mon.equal(p.prev(), None, "prev-at-start")
            mon.equal(keys, list(m)[::-1], "backward", "keys visited by last/prev")
            mon.count("iterations")
        elif op == "zigzag":
            if m:
                ks, at = list(m), 0
                mon.equal(p.first(), ks[0], "zigzag")
                for step in range(8):
                    fwd = (v >> (step % 5)) & 1
                    if fwd:
                        mon.equal(p.next(), ks[at + 1] if at + 1 < len(ks) else None, "zigzag")
                        at = min(at + 1, len(ks) - 1)
                    else:
                        mon.equal(p.prev(), ks[at - 1] if at else None, "zigzag")
                        at = max(at - 1, 0)
                mon.count("iterations")
        elif op == "delete_iter":
            if m:
                seen, k = [], p.first()
                while k is not None and k is not False and len(seen) < 50:
                    seen.append(k)
                    if hash(str(k)) % 2 or v % 2:
                        p.delete(k)
                    k = p.next() if p.has_next() else None
                mon.equal(seen, list(m), "delete-iterate", "keys visited by first/next while deleting visited keys")
                mon.count("delete_while_iterating")
                m = {k: x for k, x in m.items() if not (hash(str(k)) % 2 or v % 2)}
        elif op == "print":
            if kind == "tpool":
                continue
            ks = list(m)
            if ks:
                p.first()
            if kind != "bpool":
                pr = UVMLinePrinter()
                p.do_print(pr)
            if ks:
                mon.equal(p.next(), ks[1] if len(ks) > 1 else None, "print-moves", "next key after printing in mid-iteration")
        elif op in ("copy", "clone"):
            if op == "copy":
                c = type(p)("c")
                if not strings:
                    c.add("stale", 1)
                c.copy(p)
            else:
                if strings:
                    continue
                c = p.clone()
            copies.append((c, dict(m)))
            mon.count("copies")
            if v % 3 == 0:
                copies[-1] = (p, dict(m))
                if kind == "tpool":
                    c.T = list
                p = c
        reps = [x[1] for x in out.take()[0]]
        mon.equal(reps, ["POOLDEL"] if refused else [], "report", f"{op}({key!r})")
        mon.count("refused", refused)
        mon.count("changes", op in ("add", "setitem", "delete", "get"))
        mon.event(op, i, v)
        got = [(k, p.pool[k]) for k in p.keys()]
        mon.check([k for k, _ in got] == list(m) and all(x is m[k] for k, x in got), "contents",
                  f"after {op}({key!r}, {v}) the pool holds {got}, expected {list(m.items())}")
        for c, snap in copies:
            mon.check(list(c.keys()) == list(snap) and all(c[k] is x for k, x in snap.items()), "copy-independent",
                      f"a copy made earlier holds {list(c.keys())}, expected {list(snap)}")
