"""C45: the sequence macros (functions) uvm_do*, uvm_send*, uvm_create*.

Generated sequences execute items and sequences by all forms of the macros, at their own or a named sequencer, with and without priority
and constraints. What happened between the call and its return is recorded: callbacks of the executing sequence and of the executed
object, randomization, what drivers received. The oracle knows from the documentation what each call has to do. The priorities are
observed by what strict arbitration grants first."""
from cocotb.triggers import Timer
from cocotb.utils import get_sim_time

from vp.monitor import Output
from vp.tasks import spawn

SIM = True
BATCH = 20
CASES = {"quick": 700, "thorough": 10000}
SIM_LIMIT_NS = 1000000
TECHNIQUE = "runtime monitoring: callbacks, randomizations and deliveries of every macro call checked against its documented expansion"
LEVEL_NOTE = "Random sequences of macro calls on real sequencers and drivers in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-4 root sequences, virtual ones among them, on 1-3 sequencers, nested up to 3 deep, 1-6 macro calls each of all forms on new, "
        "reused and created objects; non-trivial: a sequence was executed and a grant had to choose; distinct: hash of the log")
REQUIRE = {"items": 5000, "seqs": 1200, "sent": 1200, "sent_seqs": 250, "created": 1200, "overridden": 200, "reused": 300, "constrained": 1500,
           "not_randomized": 150, "elsewhere": 800, "virtual": 10, "prio": 700, "choices": 600, "choices_prio": 250, "inherited_prio": 300, "executed": 400}
ASSUMPTIONS = ["constraints are satisfiable and calls in one sequence follow each other", "grants are judged against requests of earlier instants"]
FORMS = ["do", "do_with", "do_pri_with", "do_on", "do_on_with", "do_on_pri_with"]


def gen_constraints(rng):
    n = rng.randint(0, 6)
    return rng.choice([[], [f"a == {n}"], [f"a < {n + 1}"], ["a < b"], [f"a == {n}", f"b != {n}"], [f"a + b == {n}"], [f"b > {n}"]])


def gen(rng, tier):
    nsqr = rng.choice([1, 1, 2, 3])

    def steps(depth, virtual):
        res = []
        for _ in range(rng.randint(1, 6 if depth < 2 else 3)):
            if rng.random() < .12:
                res.append(["wait", rng.choice([1, 2, 7, 20])])
                continue
            if rng.random() < .08:
                res.append(["exec", [rng.randrange(nsqr), rng.randrange(100), rng.randrange(100)]])
                continue
            kind = "seq" if depth < 3 and rng.random() < .25 else "item"
            to = rng.randrange(nsqr)
            if kind == "seq" and rng.random() < .12:
                to = -1
            x = {"kind": kind, "sqr": to, "prio": rng.choice([-1, 1, 50, 100, 150, 400]), "cs": gen_constraints(rng)}
            if rng.random() < .3:
                x["form"] = rng.choice(["send", "send_pri"])
                x["create"] = "on" if virtual else rng.choice(["", "on"])
                if kind == "item" and not virtual and rng.random() < .3:
                    x["create"] = "new"
                x["vals"] = [rng.randrange(100), rng.randrange(100)]
            else:
                x["form"] = rng.choice(FORMS[3:] if virtual else FORMS)
                x["reuse"] = kind == "item" and rng.random() < .2
            if kind == "seq":
                own = x["form"] in FORMS[:3] or x.get("create") == ""
                x["norand"] = rng.random() < .3
                x["steps"] = steps(depth + 1, virtual and (own or to < 0))
            res.append(["run", x])
        return res
    roots = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        k = -1 if rng.random() < .15 else rng.randrange(nsqr)
        roots.append({"sqr": k, "start": rng.choice([0, 0, 1, 4]), "prio": rng.choice([-1, -1, 20, 300]), "steps": steps(0, k < 0)})
    return {"sqrs": [{"arb": rng.choice(["STRICT_FIFO", "STRICT_FIFO", "FIFO"]), "gap": [rng.randint(1, 6) for _ in range(4)],
                      "serve": [rng.randint(1, 5) for _ in range(3)]} for _ in range(nsqr)],
            "roots": roots, "over": rng.random() < .4}


async def run(case, mon):
    from uvm.base import uvm_object_globals as g
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.comps.uvm_driver import UVMDriver
    from uvm.macros import uvm_object_utils
    from uvm.macros import uvm_sequence_defines as m
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.seq.uvm_sequencer import UVMSequencer
    base = get_sim_time("ps")
    log = []                # (object, what, detail, time)
    delivered = []          # (sequencer, item, values, time)
    requests = []           # [sequencer, sequence, priority, time, time of the grant]
    tag = f"m{id(log) % 1000000007}"

    def now():
        return int(get_sim_time("ps") - base)

    def note(obj, what, detail=None):
        log.append((obj, what, detail, now()))

    class Rand:
        def setup(self):
            self.a, self.b = 77, 78
            self.rand("a", range(10))
            self.rand("b", range(10))
            self.constraint(lambda b: b < 8)

        def pre_randomize(self):
            note(self, "pre_randomize")

        def post_randomize(self):
            note(self, "post_randomize", (self.a, self.b))

    class Item(Rand, UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.setup()

    class Seq(Rand, UVMSequence):
        def __init__(self, name="seq"):
            super().__init__(name)
            self.setup()
            self.steps = []

        def pre_do(self, is_item):
            for r in requests:
                if r[1] is self and r[4] is None and is_item:
                    r[4] = now()
            note(self, "pre_do", int(is_item))

        def mid_do(self, this_item):
            note(self, "mid_do", (this_item, this_item.a, this_item.b))

        def post_do(self, this_item):
            note(self, "post_do", this_item)

        async def pre_start(self):
            note(self, "pre_start")

        async def post_start(self):
            note(self, "post_start")

        async def pre_body(self):
            note(self, "pre_body")

        async def post_body(self):
            note(self, "post_body")

        async def body(self):
            note(self, "body", (self.m_sequencer, self.get_parent_sequence(), self.get_priority()))
            await play(self, self.steps)
            note(self, "body_end")
    Item.__name__, Seq.__name__ = "Item" + tag, "Seq" + tag
    uvm_object_utils(Item)
    uvm_object_utils(Seq)

    class Item2(Item):
        pass

    class Seq2(Seq):
        pass
    Item2.__name__, Seq2.__name__ = "Item2" + tag, "Seq2" + tag
    uvm_object_utils(Item2)
    uvm_object_utils(Seq2)
    if case["over"]:
        f = UVMCoreService.get().get_factory()
        f.set_type_override_by_type(Item.get_type(), Item2.get_type())
        f.set_type_override_by_type(Seq.get_type(), Seq2.get_type())
    sqrs = []
    for k, s in enumerate(case["sqrs"]):
        sqr, drv = UVMSequencer(f"{tag}_sqr{k}", None), UVMDriver(f"{tag}_drv{k}", None)
        sqr.set_arbitration(getattr(g, "UVM_SEQ_ARB_" + s["arb"]))
        sqr.build_phase(None)
        sqr.connect_phase(None)
        drv.seq_item_port.connect(sqr.seq_item_export)
        drv.seq_item_port.resolve_bindings()
        sqr.seq_item_export.resolve_bindings()
        sqrs.append(sqr)
        spawn(mon, drive(k, s, drv, delivered, now))
    prio_of = {}            # sequence -> priority its items have by default
    keep = []

    def holds(cs, a, b):
        return all(eval(c, {}, {"a": a, "b": b}) for c in cs) and (any("b" in c and "a" not in c for c in cs) or b < 8)

    def lambdas(cs):
        return [eval("lambda %s: %s" % (", ".join(v for v in "ab" if v in c), c)) for c in cs]

    async def play(seq, steps):
        items = []
        for what, x in steps:
            if what == "wait":
                await Timer(x, "NS")
                continue
            if what == "exec":
                await execute(seq, *x)
                continue
            await call(seq, x, items)

    async def execute(seq, k, a, b):
        obj = Item("executed")
        obj.a, obj.b = a, b
        n, nd = len(log), len(delivered)
        requests.append([sqrs[k], obj, 100, now(), None])
        await sqrs[k].execute_item(obj)
        mon.count("executed")
        mon.equal([e[1] for e in log[n:] if e[0] is seq or e[0] is obj], [], "execute-callbacks", "callbacks of execute_item")
        here = [d for d in delivered[nd:] if d[1] is obj]
        mon.equal([(sqrs[d[0]], d[2]) for d in here], [(sqrs[k], (a, b))], "execute", "sequencers and values at which drivers got the executed item")
        mon.check(not here or here[0][3] < now(), "execute-returned", "execute_item returned before the driver was done")
        if here:
            requests[[r[1] for r in requests].index(obj)][4] = here[0][3]

    async def call(seq, x, items):
        form, kind = x["form"], x["kind"]
        own = seq.m_sequencer
        there = sqrs[x["sqr"]] if x["sqr"] >= 0 else None
        where = there or own            # (no sequencer: that of the executing sequence)
        T = Item if kind == "item" else Seq
        if form.startswith("send"):
            if x["create"] == "new":
                obj, target = T("new"), own
            elif x["create"] == "on":
                obj, target = m.uvm_create_on(seq, T, there), where
            else:
                obj, target = m.uvm_create(seq, T, own), own
            if x["create"] != "new":
                mon.count("created")
                mon.count("overridden", case["over"])
                mon.equal([type(obj), obj.get_parent_sequence(), obj.get_sequencer(), obj in keep], [
                    (Item2 if kind == "item" else Seq2) if case["over"] else T, seq, target, False], "created",
                    "type, parent, sequencer of what uvm_create returned")
            obj.a, obj.b = x["vals"]
        else:
            target = where if "_on" in form else own
            if x.get("reuse") and items:
                obj = items[-1]
                mon.count("reused")
            else:
                obj = T("given")
        keep.append(obj)
        if kind == "seq":
            obj.steps = x["steps"]
            obj.do_not_randomize = int(x["norand"])
        else:
            items.append(obj)
        pri = x["prio"] if "pri" in form else -1
        want = pri if pri >= 0 else prio_of[seq]
        mon.count("prio", pri >= 0)
        mon.count("inherited_prio", pri < 0 and prio_of[seq] != 100)
        mon.count("elsewhere", target is not own)
        mon.count("virtual", target is None)
        before = (obj.a, obj.b)
        n, nd = len(log), len(delivered)
        if kind == "item":
            requests.append([target, seq, want, now(), None])
        else:
            prio_of[obj] = want
        cs = x["cs"] if "with" in form else []
        args = {"do": [], "do_with": lambdas(cs), "do_pri_with": [pri, *lambdas(cs)], "do_on": [there], "do_on_with": [there, *lambdas(cs)],
                "do_on_pri_with": [there, pri, *lambdas(cs)], "send": [], "send_pri": [pri]}[form]
        await getattr(m, "uvm_" + form)(seq, obj, *args)
        mine = [e for e in log[n:] if e[0] is seq or e[0] is obj]
        got = [(e[0] is obj, e[1]) for e in mine]
        randomized = not form.startswith("send") and not (kind == "seq" and x["norand"])
        rnd = [(True, "pre_randomize"), (True, "post_randomize")] if randomized else []
        if kind == "item":
            exp = [(False, "pre_do"), *rnd, (False, "mid_do"), (False, "post_do")]
        else:       # (what the body of the executed sequence calls is judged by its own calls)
            first = [i for i, e in enumerate(mine) if e[:2] == (obj, "body")]
            last = [i for i, e in enumerate(mine) if e[:2] == (obj, "body_end")]
            if len(first) == 1 and len(last) == 1:
                del got[first[0] + 1:last[0]], mine[first[0] + 1:last[0]]
            exp = [*rnd, (True, "pre_start"), (False, "pre_do"), (False, "mid_do"), (True, "body"), (True, "body_end"), (False, "post_do"),
                   (True, "post_start")]
        if not mon.equal(got, exp, f"callbacks-{kind}-{form}", "callbacks (of the executed object?, name) of a call", form=form):
            return
        by = {e[1]: e for e in mine if e[1] not in ("pre_randomize", "post_randomize")}
        mid = by["mid_do"][2]
        mon.equal([by["pre_do"][2], mid[0] is obj, by["post_do"][2] is obj], [int(kind == "item"), True, True], "arguments",
                  "arguments of the callbacks of a call", form=form)
        vals = mid[1:]
        if randomized:
            mon.check(all(0 <= v < 10 for v in vals) and holds(cs, *vals), "values", f"values {vals} of a call that has to meet {cs}", form=form)
            mon.count("constrained", bool(cs))
        else:
            mon.equal(vals, before, "kept", "values of what is not to be randomized", form=form)
            mon.count("not_randomized", not form.startswith("send"))
        mon.equal((obj.a, obj.b), vals, "kept-after", "values after the call", form=form)
        if kind == "item":
            mon.count("items")
            mon.count("sent", form.startswith("send"))
            here = [d for d in delivered[nd:] if d[1] is obj]
            mon.equal([(sqrs[d[0]], d[2]) for d in here], [(target, vals)], "delivered", "sequencers and values at which drivers got the item", form=form)
            mon.equal([obj.get_parent_sequence(), obj.get_sequencer()], [seq, target], "context", "parent and sequencer of the item", form=form)
            mon.check(len(here) != 1 or by["mid_do"][3] <= here[0][3] < by["post_do"][3], "when",
                      f"mid_do, delivery, post_do at {by['mid_do'][3]}, {here and here[0][3]}, {by['post_do'][3]}", form=form)
        else:
            mon.count("seqs")
            mon.count("sent_seqs", form.startswith("send"))
            mon.equal(list(by["body"][2]), [target, seq, want], "start", "sequencer, parent and priority of the executed sequence", form=form)
            mon.check(not any(d[1] is obj for d in delivered), "sequence-delivered", "a driver got a sequence")

    async def root(r):
        seq = Seq("root")
        seq.steps = r["steps"]
        sqr = sqrs[r["sqr"]] if r["sqr"] >= 0 else None
        prio_of[seq] = r["prio"] if r["prio"] >= 0 else 100
        if r["start"]:
            await Timer(r["start"], "NS")
        await seq.start(sqr, None, r["prio"])
        mon.count("roots")
    with Output() as out:
        tasks = [spawn(mon, root(r)) for r in case["roots"]]
        for t in tasks:
            await t.join()
        await Timer(20, "NS")
    mon.equal([x for x in out.reports() if x[0] != "UVM_INFO"], [], "reports", "reports")
    total = sum(1 for r in requests)
    mon.equal(len(delivered), total, "exactly-once", "items delivered for the calls executing items")
    chose = False
    for k, s in enumerate(case["sqrs"]):
        mine = [r for r in requests if r[0] is sqrs[k]]
        for r in mine:
            if r[4] is None:
                continue
            rivals = [q for q in mine if q is not r and q[3] < r[4] and (q[4] is None or q[4] > r[4])]
            strict = s["arb"] == "STRICT_FIFO"
            if rivals and r[3] < r[4]:
                chose = True
                mon.count("choices")
                mon.count("choices_prio", strict and any(q[2] != r[2] for q in rivals))
            for q in rivals:
                better = (q[2] > r[2] or q[2] == r[2] and q[3] < r[3]) if strict else q[3] < r[3]
                mon.check(not better, "grant", f"granted at {r[4]} a request of priority {r[2]} of {r[3]}, waiting priority {q[2]} of {q[3]}",
                          arb=s["arb"])
    for e in log:
        mon.event(e[1], e[3])
    mon.nontrivial = chose and any(e[1] == "body" and e[2][1] is not None for e in log)


async def drive(k, s, drv, delivered, now):
    n = 0
    while True:
        await Timer(s["gap"][n % len(s["gap"])] * 1000 + 100 + k, "PS")
        req = []
        await drv.seq_item_port.get_next_item(req)
        delivered.append((k, req[0], (req[0].a, req[0].b), now()))
        await Timer(s["serve"][n % len(s["serve"])] * 1000 + 10, "PS")
        drv.seq_item_port.item_done()
        n += 1
