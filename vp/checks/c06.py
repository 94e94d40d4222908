"""The oracle is a model of every sequence's response queue, updated at each recorded step: responses put, handed to the handler, dropped
for lack of room, taken in order or by transaction id. No getter may still wait, when time moves on, for a response that is there.
Getters of one sequence that wait together may be served in any order at one instant. Not covered: killed sequences."""
from cocotb.triggers import Timer
from cocotb.utils import get_sim_time

from vp.monitor import Output
from vp.tasks import spawn

SIM = True
BATCH = 25
CASES = {"quick": 2000, "thorough": 30000}
SIM_LIMIT_NS = 1000000
TECHNIQUE = "runtime monitoring: online model of every response queue over the recorded steps of sequences and drivers"
LEVEL_NOTE = "Random sequences and drivers on the real sequencer in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-4 sequences (some children of others, some on two sequencers) with several concurrent getters each, responses in any order "
        "through item_done, put and the response port, any depth, handlers, restarts; non-trivial: two sequences got responses; "
        "distinct: hash of the log")
REQUIRE = {"responses": 8000, "by_id": 1500, "own_id_0": 200, "threads_two_sequencers": 80, "many_queued": 20, "by_id_not_first": 300, "overflows": 400, "overflows_silent": 100, "handled": 700,
           "to_ended": 250, "waited": 1500, "via_item_done": 1000, "via_put": 1000, "via_port": 1000, "restarted": 100}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]


def gen(rng, tier):
    nsqr = rng.choice([1, 1, 2])
    seqs = []
    for j in range(rng.randint(1, 4)):
        threads = rng.random() < .15
        items = [[rng.choice([0, 0, 1, 4]), rng.randrange(nsqr), 1000 + n if threads else rng.choice([-1, -1, -1, 1000 + n])]
                 for n in range(rng.randint(1, 12) if rng.random() < .95 else 40)]
        if not threads and rng.random() < .2:
            items[rng.randrange(len(items))][2] = 0
        gets = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            gets.append([[rng.choice([0, 1, 5, 20, 60]), rng.choice(["any", "any", "id"]), rng.randrange(len(items))]
                         for _ in range(rng.randint(1, 6))])
        seqs.append({"depth": rng.choice([None, None, None, -1, 1, 2, 3, 20]), "silent": rng.random() < .2,
                     "handler": rng.random() < .15, "items": items, "gets": gets, "linger": rng.choice([0, 5, 50, 200]),
                     "threads": threads,
                     "parent": rng.choice([-1, -1, rng.randrange(j)]) if j else -1, "again": rng.random() < .15})
    return {"nsqr": nsqr, "seqs": seqs,
            "driver": [[rng.choice([0, 0, 1, 3]), rng.choice(["done", "done", "put", "port", "late", "late", "twice", "self", "none"]),
                        rng.choice([0, 1, 2, 7, 30, 150])] for _ in range(rng.randint(5, 23))]}


class Then:
    """Awaits a coroutine and calls back as soon as it waits for the first time, or ends."""

    def __init__(self, coro, callback):
        self.coro, self.callback = coro, callback

    def __await__(self):
        it = self.coro.__await__()
        try:
            y = next(it)
        except StopIteration:
            self.callback()
            return
        self.callback()
        while True:
            try:
                x = yield y
                y = it.send(x)
            except StopIteration:
                return


async def run(case, mon):
    from uvm.comps.uvm_driver import UVMDriver
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.seq.uvm_sequencer import UVMSequencer
    tag = f"q{id(mon) % 1000000007}"
    base = get_sim_time("ps")
    out = Output()
    st = {"t": 0, "resp": 0, "overflow": 0}
    run_of = {}             # j -> number of the current run, or None
    model = {}              # j -> list of responses
    waits = {}              # getter -> (j, id or None)
    item_of = {}            # item key -> (j, run)
    keys = {}               # (j, item position, run) -> transaction id
    got = set()

    def now():
        return int(get_sim_time("ps") - base)

    def settle():
        """Called at every step: when time has moved, nobody may have been left waiting for a response that is there."""
        t = now()
        if t != st["t"]:
            for w, (j, i, since) in waits.items():
                there = [r.n for r in model.get(j, []) if i is None or r.get_transaction_id() == i]
                mon.check(not there, "left-waiting", f"sequence {j}: getter of {i} waiting since {since} at {t} although {there} is queued")
            st["t"] = t

    class Seq(UVMSequence):
        async def body(self):
            j, s = self.j, case["seqs"][self.j]
            tasks = [spawn(mon, getter(self, j, (j, n, run_of[j]), g)) for n, g in enumerate(s["gets"])]
            async def send(n, delay, k, tid):
                if delay:
                    await Timer(delay, "NS")
                it = UVMSequenceItem(f"item{n}")
                it.key = (j, run_of[j], n)
                if tid >= 0:
                    it.set_transaction_id(tid)
                await self.start_item(it, -1, sqrs[k])
                await self.finish_item(it)
                x = it.get_transaction_id()
                if tid >= 0:
                    mon.equal(x, tid, "transaction-id", f"transaction id of item {n} of sequence {j}, set by the user")
                mon.check((j, run_of[j], x) not in keys, "unique-id", f"transaction id {x} of item {n} of sequence {j} was used before")
                keys[j, run_of[j], x] = n
                settle()
                mon.count("own_id_0", tid == 0)
            if s["threads"]:
                parts = [spawn(mon, send(n, *x)) for n, x in enumerate(s["items"])]
                for p in parts:
                    await p
                mon.count("threads_two_sequencers", len({x[1] for x in s["items"]}) > 1)
            else:
                for n, x in enumerate(s["items"]):
                    await send(n, *x)
            for c, q in enumerate(case["seqs"]):
                if q["parent"] == j and run_of.get(c) is None:
                    await play(c, self)
            if s["linger"]:
                await Timer(s["linger"], "NS")
            for t in tasks:
                if not t.done():
                    t.kill()
            for w in [w for w in waits if w[0] == j]:
                del waits[w]

        def response_handler(self, response):
            st["handled"] = (self.j, response)

    async def getter(seq, j, me, plan):
        for m, (delay, how, n) in enumerate(plan):
            if delay:
                await Timer(delay, "NS")
            settle()
            tid = None
            if how == "id":
                # the id the n-th item has or will have
                auto = [x for x in case["seqs"][j]["items"]]
                tid = auto[n][2] if auto[n][2] >= 0 else 1 + base_id[j] + sum(1 for x in auto[:n] if x[2] < 0)
            waits[me] = (j, tid, now())
            ret = []
            t0 = now()
            if tid is None:
                await seq.get_response(ret)
            else:
                await seq.get_response(ret, tid)
            settle()
            if me not in waits:
                return
            del waits[me]
            r = ret[0] if ret else None
            name = getattr(r, "n", r)
            mon.event("got", now(), j, name)
            mon.count("waited", now() != t0)
            q = model[j]
            mon.check(len(ret) == 1, "one-response", f"get_response of sequence {j} returned {len(ret)} responses")
            if tid is None:
                mon.check(bool(q) and q[0] is r, "in-order", lambda: f"sequence {j}: get_response returned {name}, queued are {[x.n for x in q]}")
            else:
                mon.count("by_id")
                fit = [x for x in q if x.get_transaction_id() == tid]
                mon.count("by_id_not_first", bool(fit) and q[0] is not fit[0])
                mon.check(bool(fit) and fit[0] is r, "by-id", lambda: f"sequence {j}: get_response({tid}) returned {name} of id "
                          f"{r.get_transaction_id()}, queued are {[(x.n, x.get_transaction_id()) for x in q]}")
            mon.check(name not in got, "once", f"response {name} delivered twice")
            got.add(name)
            model[j] = [x for x in q if x is not r]
            mon.check(item_of.get(name) == j, "right-sequence", f"response {name} to an item of sequence {item_of.get(name)} came to {j}")

    sqrs, drvs = [], []
    for k in range(case["nsqr"]):
        sqr, drv = UVMSequencer(f"{tag}_sqr{k}", None), UVMDriver(f"{tag}_drv{k}", None)
        sqr.build_phase(None)
        sqr.connect_phase(None)
        drv.seq_item_port.connect(sqr.seq_item_export)
        drv.rsp_port.connect(sqr.rsp_export)
        for p in (drv.seq_item_port, sqr.seq_item_export, drv.rsp_port, sqr.rsp_export, sqr.sqr_rsp_analysis_fifo.analysis_export):
            p.resolve_bindings()
        sqrs.append(sqr)
        drvs.append(drv)
    seqs = [Seq(f"s{j}") for j in range(len(case["seqs"]))]
    base_id = {}
    runs = [0]
    for j, s in enumerate(case["seqs"]):
        q = seqs[j]
        q.j = j
        mon.equal(q.get_response_queue_depth(), 8, "default-depth", "depth of the response queue unless set")
        if s["depth"] is not None:
            q.set_response_queue_depth(s["depth"])
            mon.equal(q.get_response_queue_depth(), s["depth"], "depth", "depth of the response queue read back")
        q.set_response_queue_error_report_disabled(1 if s["silent"] else 0)
        q.use_response_handler(1 if s["handler"] else 0)
        base_id[j] = 0

    async def play(j, parent):
        runs[0] += 1
        run_of[j] = runs[0]
        model[j] = []
        settle()
        mon.event("start", now(), j)
        await seqs[j].start(sqrs[0], parent)
        settle()
        mon.event("end", now(), j)
        run_of[j] = None
        base_id[j] += sum(1 for x in case["seqs"][j]["items"] if x[2] < 0)

    num = [0]
    received = [0] * case["nsqr"]
    senders = set()

    async def answer(k, port, req, how, same=False):
        """Sends one response to req and updates the model. how: done, put or port."""
        settle()
        if same:
            rsp = req
        else:
            rsp = UVMSequenceItem("rsp")
            rsp.set_id_info(req)
            mon.equal((rsp.get_transaction_id(), rsp.get_sequence_id()), (req.get_transaction_id(), req.get_sequence_id()), "id-info",
                      "ids of a response after set_id_info")
        rsp.n = num[0]
        num[0] += 1
        j, rn, _ = req.key
        item_of[rsp.n] = j
        st["handled"] = None
        alive = run_of.get(j) == rn
        s = case["seqs"][j]
        depth = 8 if s["depth"] is None else s["depth"]
        room = depth == -1 or len(model.get(j, [])) < depth
        expect_err = alive and not s["handler"] and not room and not s["silent"]
        mon.count("responses")
        mon.count("via_" + {"done": "item_done"}.get(how, how))
        received[k] += 1
        if alive and not s["handler"] and room:
            model[j].append(rsp)
            mon.count("many_queued", len(model[j]) == 18)
            senders.add(j)
        mon.event("resp", now(), j, rsp.n, how, alive, room)
        args = (k, rsp, j, s, alive, room, expect_err)
        out.take()
        if how == "done":
            port.item_done(rsp)
            judge(*args)
        elif how == "put":
            await Then(port.put(rsp), lambda: judge(*args))
        else:
            drvs[k].rsp_port.write(rsp)
            judge(*args)

    def judge(k, rsp, j, s, alive, room, expect_err):
        reps = out.take()[0]
        errs = [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")]
        mon.equal(len(errs), 1 if expect_err else 0, "overflow-error", f"errors reported for response {rsp.n} to sequence {j}, room {room}: {errs}, expected")
        if expect_err:
            mon.check("Response queue overflow" in errs[0][2], "overflow-error", f"error reported on overflow: {errs[0]}")
        h = st["handled"]
        if alive and s["handler"]:
            mon.count("handled")
            mon.check(h is not None and h[0] == j and h[1] is rsp, "handler", f"response {rsp.n} to sequence {j}: the handler got {h}")
        else:
            mon.check(h is None, "handler", f"response {rsp.n} to sequence {j} (running {alive}) went to the handler of {h}")
        mon.count("to_ended", not alive)
        mon.count("overflows", expect_err)
        mon.count("overflows_silent", alive and not s["handler"] and not room and s["silent"])
        mon.equal(sqrs[k].get_num_rsps_received(), received[k], "received", f"responses counted by sequencer {k}")

    async def later(k, port, req, how, delay, same=False):
        await Timer(delay * 1000 + num[0] % 2, "PS")
        await answer(k, port, req, how, same)
    lates = []

    async def driver(k):
        port = drvs[k].seq_item_port
        n = k * 3
        while True:
            serve, how, delay = case["driver"][n % len(case["driver"])]
            n += 1
            box = []
            await port.get_next_item(box)
            settle()
            req = box[0]
            if serve:
                await Timer(serve, "NS")
            if how == "done":
                await answer(k, port, req, "done")
                continue
            if how == "self":
                await answer(k, port, req, "done", True)
                continue
            port.item_done()
            if how == "put":
                await answer(k, port, req, "put")
            elif how == "port":
                await answer(k, port, req, "port")
            elif how == "late":
                lates.append(spawn(mon, later(k, port, req, "port" if n % 2 else "put", delay)))
            elif how == "twice":
                await answer(k, port, req, "port")
                await answer(k, port, req, "put")

    async def root(j, s):
        await play(j, None)
        if s["again"]:
            mon.count("restarted")
            await play(j, None)

    with out:
        dt = [spawn(mon, driver(k)) for k in range(case["nsqr"])]
        tasks = [spawn(mon, root(j, s)) for j, s in enumerate(case["seqs"]) if s["parent"] < 0]
        end = now() + 20000000
        while now() < end and not (all(t.done() for t in tasks) and all(t.done() for t in lates)):
            await Timer(100, "NS")
        ok = all(t.done() for t in tasks)
        settle()
        for t in tasks + dt + lates:
            if not t.done():
                t.kill()
        reps = [x for x in out.take()[0] if x[0] in ("UVM_ERROR", "UVM_FATAL")]
        mon.check(not reps, "reports", f"errors reported: {reps[:3]}")
    mon.check(ok, "stuck", f"sequences never ended, running {[j for j in run_of if run_of[j] is not None]}")
    mon.nontrivial = len(senders) > 1
