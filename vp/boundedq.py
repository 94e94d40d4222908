"""Workload and online checker for anything that acts as a bounded FIFO of items (mailboxes,
TLM FIFOs, channels): every call is logged at invocation and return, sampled at quiescent
instants (half-way between the whole nanoseconds at which processes act), and judged against a
bounded queue."""

from cocotb.triggers import Timer

from .clock import Clock
from .tasks import spawn

BLOCKING = ("put", "get", "peek")


class Item:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"item{self.n}"


class QueueMonitor:
    def __init__(self, mon, bound, queries):
        self.mon, self.bound, self.q = mon, bound, queries
        self.seq = 0
        self.puts, self.gets, self.peeks, self.blocked = [], [], [], {}
        self.clock = Clock()

    @property
    def now(self):
        return self.clock()

    def tick(self):
        self.seq += 1
        return self.seq

    # exact contents as a count: returned puts minus returned gets
    def level(self):
        return len(self.puts) - len(self.gets)

    def invoke(self, proc, op, item=None):
        rec = {"proc": proc, "op": op, "inv": self.tick(), "item": item, "t": self.now}
        self.blocked[proc] = rec
        return rec

    def returned(self, rec, item=None):
        self.blocked.pop(rec["proc"], None)
        rec["ret"] = self.tick()
        op = rec["op"]
        self.mon.event(op, rec["proc"], self.now, rec["t"] == self.now)
        if op in ("put", "try_put"):
            self.puts.append(rec)
            if rec["t"] != self.now:
                self.mon.count("blocked_puts_released")
            if self.bound:
                inflight = sum(1 for r in self.blocked.values() if r["op"] == "get")
                self.mon.check(self.level() - inflight <= self.bound, "over-capacity",
                               f"{self.level()} items inside, bound {self.bound}")
        elif op in ("get", "try_get"):
            rec["item"] = item
            if rec["t"] != self.now:
                self.mon.count("blocked_gets_released")
            self.gets.append(rec)
        else:
            rec["item"] = item
            if rec["t"] != self.now:
                self.mon.count("blocked_peeks_released")
            self.peeks.append(rec)
        if op not in ("put", "try_put"):
            if not isinstance(item, Item):
                self.mon.violate("no-item", f"{op} returned {item!r} instead of an item that was put")
                return

    def quiescent(self):
        """Nothing more can happen at this instant: who may still be blocked?"""
        n = self.level()
        self.mon.count("quiescent_points")
        for rec in list(self.blocked.values()):
            if rec["op"] in ("get", "peek"):
                self.mon.check(n <= 0, "lost-wakeup", f"{rec['op']} of {rec['proc']} called at {rec['t']} is still "
                               f"blocked at {self.now} with {n} items inside")
            elif rec["op"] == "put":
                self.mon.check(bool(self.bound) and n >= self.bound, "lost-wakeup",
                               f"put of {rec['proc']} called at {rec['t']} is still blocked at {self.now} "
                               f"with {n} items inside, bound {self.bound}")
        if "num" in self.q:
            self.mon.equal(self.q["num"](), n, "num", f"number of items at {self.now}")
        for name, want in (("is_empty", n == 0), ("is_full", bool(self.bound) and n == self.bound),
                           ("can_put", not self.bound or n < self.bound), ("can_peek", n > 0),
                           ("can_get", n > 0)):
            if name in self.q:
                self.mon.equal(bool(self.q[name]()), want, name, f"{name} at {self.now} with {n} items, bound {self.bound}")

    def order(self, drained=None):
        """FIFO linearizability for distinct items."""
        put_at = {id(r["item"]): r for r in self.puts}
        got = {}
        for g in self.gets:
            it = g["item"]
            if not isinstance(it, Item):
                continue
            if id(it) in got:
                self.mon.violate("duplicated", f"{it} was got twice")
                continue
            got[id(it)] = g
            if not self.mon.check(id(it) in put_at and put_at[id(it)]["inv"] < g["ret"], "invented",
                                  f"{it} was got but not put before"):
                continue
        seq = [(put_at[k], g) for k, g in got.items() if k in put_at]
        for pa, ga in seq:
            for pb, gb in seq:
                if pa["ret"] < pb["inv"] and gb["ret"] < ga["inv"]:
                    self.mon.violate("reordered", f"{pa['item']} was put before {pb['item']} but got after it")
                    return
        # an item got while an earlier one still remains inside
        for p in self.puts:
            if id(p["item"]) in got:
                continue
            for pb, gb in seq:
                if p["ret"] < pb["inv"]:
                    self.mon.violate("lost-or-overtaken", f"{p['item']} was put before {pb['item']}, which was got, "
                                     f"but is itself still inside or lost")
                    return
        for k in self.peeks:
            it = k["item"]
            if not isinstance(it, Item):
                continue
            p = put_at.get(id(it))
            if not self.mon.check(p is not None and p["inv"] < k["ret"], "invented", f"{it} was peeked, never put"):
                continue
            g = got.get(id(it))
            self.mon.check(g is None or g["ret"] > k["inv"], "stale-peek", f"{it} was peeked after it was got")
            # it must have been the head: nothing put strictly before it is got strictly after the peek
            for pb in self.puts:
                if pb["ret"] < p["inv"]:
                    gb = got.get(id(pb["item"]))
                    if gb is None or gb["inv"] > k["ret"]:
                        self.mon.violate("peek-not-head", f"peek returned {it} while {pb['item']} was ahead of it")
                        return
        self.mon.count("order_checked_items", len(seq))


def gen_scripts(rng, bound, tier, ops):
    """Scripts of [delay, op] per process; bursts of zero delays make calls meet in one time step."""
    procs = []
    n = rng.randint(2, 6)
    steps = rng.randint(3, 14 if tier == "quick" else 30)
    style = rng.choice(["mixed", "producers", "consumers", "lockstep"])
    for p in range(n):
        role = rng.choice(["put", "get", "any"]) if style == "mixed" else \
            {"producers": "put" if p < n - 1 else "get", "consumers": "get" if p else "put",
             "lockstep": "put" if p % 2 else "get"}[style]
        script = []
        for _ in range(steps):
            d = 2 if style == "lockstep" else rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, 9)])
            pool = [o for o in ops if role == "any" or ("put" in o) == (role == "put") or
                    ("peek" in o and rng.random() < .3)]
            pool = [o for o in pool if o != "flush" or rng.random() < .3] or ["put"]
            script.append([d, rng.choice(pool)])
        procs.append(script)
    return procs


async def play(case, mon, adapter, qm, horizon=None):
    """Runs the scripts against adapter (dict of callables) and the monitor qm."""
    counter = [0]
    adapter = dict(adapter)

    async def proc(p, script):
        for delay, op in script:
            if delay:
                await Timer(delay, "NS")
            if "put" in op:
                it = Item(counter[0])
                counter[0] += 1
            if op == "put":
                rec = qm.invoke(p, op, it)
                await adapter["put"](it)
                qm.returned(rec)
            elif op == "try_put":
                want = not qm.bound or qm.level() < qm.bound
                if "can_put" in qm.q:
                    mon.equal(bool(qm.q["can_put"]()), want, "can_put", f"can_put at {qm.now} with {qm.level()} inside, bound {qm.bound}")
                rec = qm.invoke(p, op, it)
                ok = bool(adapter["try_put"](it))
                mon.equal(ok, want, "try_put-result", f"try_put at {qm.now} with {qm.level()} inside, bound {qm.bound}")
                if ok:
                    qm.returned(rec)
                else:
                    qm.blocked.pop(p, None)
                    mon.count("try_put_refused")
            elif op in ("get", "peek"):
                rec = qm.invoke(p, op)
                res = await adapter[op]()
                qm.returned(rec, res)
            elif op == "flush":
                adapter["flush"]()
            else:
                want = qm.level() > 0
                can = qm.q.get("can_" + op[4:])
                # a FIFO keeps what is inside for the gets already blocked
                if can and not (op == "try_get" and any(r["op"] == "get" for r in qm.blocked.values())):
                    mon.equal(bool(can()), want, "can_" + op[4:], f"can_{op[4:]} at {qm.now} with {qm.level()} inside")
                rec = qm.invoke(p, op)
                ok, res = adapter[op]()
                mon.equal(bool(ok), want, op + "-result", f"{op} at {qm.now} with {qm.level()} inside")
                if ok:
                    qm.returned(rec, res)
                else:
                    qm.blocked.pop(p, None)
                    mon.count(op + "_refused")
    tasks = [spawn(mon, proc(f"p{i}", s)) for i, s in enumerate(case["procs"])]
    end = horizon or (max(sum(d for d, _ in s) for s in case["procs"]) * 3 + 40)
    await Timer(500, "PS")
    idle = 0
    while qm.now < end:
        last = qm.seq
        qm.quiescent()
        if all(t.done() for t in tasks):
            break
        await Timer(500, "PS")
        await Timer(500, "PS")
        idle = idle + 1 if qm.seq == last else 0
        if idle > 12:
            break
    for t in tasks:
        if t.done():
            t.result()
        else:
            t.kill()
    # what is left inside
    mon.nontrivial = len(qm.gets) > 0 and len(qm.puts) > 1
