"""Runs generated sequences and drivers on real sequencers and records every step.

case: {"sqrs": [{"arb": name, "style": "next"|"try"|"get"|"peek"|"mix", "think": [ns...], "serve": [ns...]}],
       "seqs": [{"sqr": k, "start": ns or None (a child), "prio": p or -1, "steps": [...], "rel": [ns...]}]}
steps: ["item", pre, mid, prio, sqr or -1, how] | ["child", j] | ["par", [j...]] | ["wait", ns]
rel: times at which the relevance of the sequence toggles, from relevant."""
import cocotb
from cocotb.triggers import Event, Timer
from cocotb.utils import get_sim_time

from .tasks import spawn

ARBS = ["FIFO", "RANDOM", "WEIGHTED", "STRICT_FIFO", "STRICT_RANDOM", "USER"]


def gen_seqs(rng, tier, nsqr, timed=True, prios=False, rels=False, tries=()):
    seqs = []
    depth_of = {}

    def delay():
        return rng.choice([0, 0, 0, 1, 2, 5]) if timed else 0

    def make(sqr, depth, start):
        j = len(seqs)
        s = {"sqr": sqr, "start": start, "prio": rng.choice([-1, 1, 5, 100, 200]) if prios else -1, "steps": [], "rel": []}
        seqs.append(s)
        if rels and rng.random() < .5:
            t, r = 0, []
            for _ in range(rng.randint(1, 6)):
                t += rng.choice([1, 3, 10, 30])
                r.append(t)
            s["rel"] = r if len(r) % 2 == 0 else r + [t + 7]      # relevant in the end
        for _ in range(rng.randint(1, 4 if tier == "quick" else 8)):
            r = rng.random()
            if r < .75 or depth >= 3 or len(seqs) > 15:
                k = rng.randrange(nsqr) if rng.random() < .15 else -1
                mid = delay() if (k if k >= 0 else sqr) not in tries else 0
                s["steps"].append(["item", delay(), mid, rng.choice([-1, -1, 1, 7, 100, 300]) if prios else -1, k,
                                   rng.choice(["start", "start", "send", "do", "do_on"]) if mid == 0 and rng.random() < .3 else "start"])
            elif r < .85:
                s["steps"].append(["child", make(sqr if rng.random() < .8 else rng.randrange(nsqr), depth + 1, None)])
            elif r < .93:
                s["steps"].append(["par", [make(sqr, depth + 1, None) for _ in range(rng.randint(2, 3))]])
            else:
                s["steps"].append(["wait", rng.randint(1, 20)])
        return j
    for _ in range(rng.choice([1, 2, 3, 6])):
        make(rng.randrange(nsqr), 0, rng.choice([0, 0, 1, 3, 10]) if timed else 0)
    return seqs


def gen_sqr(rng, style=None):
    return {"arb": "FIFO", "style": style or rng.choice(["next", "next", "get", "peek", "try", "mix"]),
            "think": [rng.choice([0, 0, 1, 3, 10]) for _ in range(7)], "serve": [rng.choice([0, 0, 1, 4, 9]) for _ in range(5)]}


class Run:
    def __init__(self, case, mon):
        self.case, self.mon = case, mon
        self.base = get_sim_time("ps")
        self.log = []           # (kind, time, ...) in order
        self.items = []         # item index -> object
        self.payload = []
        self.sent_by = []
        self.failed = []

    def now(self):
        return int(get_sim_time("ps") - self.base)

    def add(self, kind, *rest):
        self.log.append((kind, self.now()) + rest)

    def build(self, sqr_class=None, item_class=None, seq_class=None):
        from uvm.base import uvm_object_globals as g
        from uvm.comps.uvm_driver import UVMDriver
        from uvm.macros import uvm_object_utils
        from uvm.seq.uvm_sequence import UVMSequence
        from uvm.seq.uvm_sequence_item import UVMSequenceItem
        from uvm.seq.uvm_sequencer import UVMSequencer
        run, case = self, self.case
        tag = f"r{id(self) % 1000000007}"

        class Item(item_class or UVMSequenceItem):
            pass
        Item.__name__ = "Item" + tag
        uvm_object_utils(Item)

        class Seq(seq_class or UVMSequence):
            def __init__(self, name="seq"):
                super().__init__(name)
                self.j = None
                self.relevant = True
                self.rel_event = Event()

            async def body(self):
                await run.body(self, self.j)

        class RelSeq(Seq):
            def is_relevant(self):
                return 1 if self.relevant else 0

            async def wait_for_relevant(self):
                while not self.relevant:
                    self.rel_event.clear()
                    await self.rel_event.wait()
        self.Item = Item
        self.sqrs, self.drvs, self.seqs = [], [], []
        for k, s in enumerate(case["sqrs"]):
            sqr = (sqr_class or UVMSequencer)(f"{tag}_sqr{k}", None)
            sqr.set_arbitration(getattr(g, "UVM_SEQ_ARB_" + s["arb"]))
            sqr.set_max_zero_time_wait_relevant_count(100000)
            drv = UVMDriver(f"{tag}_drv{k}", None)
            sqr.build_phase(None)
            sqr.connect_phase(None)
            drv.seq_item_port.connect(sqr.seq_item_export)
            drv.rsp_port.connect(sqr.rsp_export)
            for p in (drv.seq_item_port, sqr.seq_item_export, drv.rsp_port, sqr.rsp_export, sqr.sqr_rsp_analysis_fifo.analysis_export):
                p.resolve_bindings()
            self.sqrs.append(sqr)
            self.drvs.append(drv)
        for j, s in enumerate(case["seqs"]):
            q = (RelSeq if s["rel"] else Seq)(f"seq{j}")
            q.j = j
            q.add = run.add
            self.seqs.append(q)
        return self

    # -- the sequences
    async def body(self, seq, j):
        for step in self.case["seqs"][j]["steps"]:
            if step[0] == "item":
                await self.send(seq, j, *step[1:])
            elif step[0] == "child":
                await self.start(step[1], seq)
            elif step[0] == "par":
                tasks = [spawn(self.mon, self.start(c, seq)) for c in step[1]]
                for t in tasks:
                    await t.join()
            else:
                await Timer(step[1], "NS")

    async def start(self, j, parent):
        s = self.case["seqs"][j]
        self.add("start", j)
        if s["prio"] > 0:
            await self.seqs[j].start(self.sqrs[s["sqr"]], parent, s["prio"])
        else:
            await self.seqs[j].start(self.sqrs[s["sqr"]], parent)
        self.add("end", j)

    def new_item(self, j):
        i = len(self.items)
        it = self.Item(f"i{i}")
        it.n = i
        it.data = (i * 2654435761) & 0xFFFFFFFF
        self.items.append(it)
        self.payload.append(it.data)
        self.sent_by.append(j)
        return i, it

    async def send(self, seq, j, pre, mid, prio, sqr, how):
        from uvm.macros import uvm_sequence_defines as m
        if pre:
            await Timer(pre, "NS")
        i, it = self.new_item(j)
        k = sqr if sqr >= 0 else self.case["seqs"][j]["sqr"]
        it.vp_prio = prio
        self.add("req", k, j, i, prio if prio > 0 else seq.get_priority())
        if how == "start":
            if sqr >= 0:
                await seq.start_item(it, prio, self.sqrs[k])
            elif prio > 0:
                await seq.start_item(it, prio)
            else:
                await seq.start_item(it)
            self.add("grant", k, j, i)
            if mid:
                await Timer(mid, "NS")
            self.add("sent", k, j, i)
            await seq.finish_item(it)
        elif how == "send":
            it.set_item_context(seq, self.sqrs[k])
            await (m.uvm_send_pri(seq, it, prio) if prio > 0 else m.uvm_send(seq, it))
        elif sqr >= 0 or how == "do_on":
            if prio > 0:
                await m.uvm_do_on_pri_with(seq, it, self.sqrs[k], prio)
            else:
                await m.uvm_do_on(seq, it, self.sqrs[k])
        elif prio > 0:
            await m.uvm_do_pri_with(seq, it, prio)
        else:
            await m.uvm_do(seq, it)
        self.add("fin", k, j, i)

    # -- the drivers
    async def driver(self, k, respond=None):
        s, port = self.case["sqrs"][k], self.drvs[k].seq_item_port
        frac = 10 + k
        n = 0
        while True:
            t = s["think"][n % len(s["think"])]
            d = s["serve"][n % len(s["serve"])]
            style = s["style"] if s["style"] != "mix" else ["next", "get", "peek", "next", "try"][(n * 7 + t) % 5]
            n += 1
            frac = 10 + (frac + 37) % 900
            await Timer(t * 1000 + (frac if t else 0), "PS") if t or style == "try" and not d else None
            if style == "try" and t == 0:
                await Timer(1000 + frac, "PS")
            got = []
            self.add("want", k, style)
            if style == "try":
                await port.try_next_item(got)
            elif style == "next":
                await port.get_next_item(got)
            elif style == "peek":
                await port.peek(got)
            else:
                await port.get(got)
            if not got:
                self.add("none", k)
                if style != "try":
                    self.mon.violate("no-item", f"driver call of style {style} returned no item")
                continue
            it = got[0]
            self.mon.check(len(got) == 1, "one-item", f"{len(got)} items returned by one call of style {style}")
            i = getattr(it, "n", None)
            self.add("got", k, i, it is self.items[i] if i is not None else False, it.data if i is not None else None)
            if style == "get":
                self.add("done", k, i)
                if respond:
                    await respond(k, port, it, None)
                continue
            if style == "peek":
                again = []
                if d % 2:
                    await port.peek(again)
                    self.mon.check(len(again) == 1 and again[0] is it, "peek-again", f"second peek returned {again}, not the item {i}")
            if d:
                await Timer(d * 1000 + 1, "PS")
            if style == "peek":
                again = []
                await port.get(again)
                self.mon.check(len(again) == 1 and again[0] is it, "get-after-peek", f"get after peek returned {again}, not the item {i}")
                self.add("done", k, i)
                if respond:
                    await respond(k, port, it, None)
            elif respond:
                await respond(k, port, it, lambda *a: (port.item_done(*a), self.add("done", k, i)))
            else:
                port.item_done()
                self.add("done", k, i)

    async def go(self, limit_ns, respond=None):
        """Starts everything, returns when all sequences have ended or at the limit: True when they ended."""
        self.dtasks = [spawn(self.mon, self.driver(k, respond)) for k in range(len(self.sqrs))]
        tasks = []

        async def root(j, s):
            if s["start"]:
                await Timer(s["start"], "NS")
            await self.start(j, None)

        async def toggle(j, s):
            last = 0
            for t in s["rel"]:
                await Timer((t - last) * 1000 - (0 if last else 1 + j), "PS")
                last = t
                q = self.seqs[j]
                q.relevant = not q.relevant
                self.add("rel", j, q.relevant)
                if q.relevant:
                    q.rel_event.set()
        for j, s in enumerate(self.case["seqs"]):
            if s["start"] is not None:
                tasks.append(spawn(self.mon, root(j, s)))
            if s["rel"]:
                tasks.append(spawn(self.mon, toggle(j, s)))
        end = self.now() + limit_ns * 1000
        while self.now() < end and not all(t.done() for t in tasks):
            await Timer(100, "NS")
        ok = all(t.done() for t in tasks)
        for t in tasks + self.dtasks:
            if not t.done():
                t.kill()
        return ok
