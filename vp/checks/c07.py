"""The oracle checks the recorded callbacks of every run of every sequence against the documented order, with times and states, and the
effects of kills against a model of which sequences run. Kills happen at instants at which nothing else does. Not covered: sequences
that send items from processes of their own, killing a sequence between the grant and the sending of an item."""
from cocotb.triggers import Timer

from vp.monitor import Output
from vp.seqrun import Run, gen_seqs, gen_sqr
from vp.tasks import spawn

SIM = True
BATCH = 20
CASES = {"quick": 1500, "thorough": 20000}
SIM_LIMIT_NS = 1000000
TECHNIQUE = "runtime monitoring: checker over the recorded callbacks, states and times of generated sequences"
LEVEL_NOTE = "Random sequences and drivers on the real sequencer in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-16 sequences (nested, parallel, restarted, started with or without the optional callbacks, with or without automatic phase "
        "objection) with delays in every callback on 1-2 sequencers, killed or stopped at random times, with waiters for their states; "
        "non-trivial: a child sequence ran; distinct: hash of the log")
REQUIRE = {"runs": 6000, "full_runs": 3000, "no_pre_post": 500, "child_runs": 1500, "items": 8000, "killed": 300, "killed_child": 100,
           "killed_with_children": 50, "killed_ended": 20, "restarted": 200, "restarted_killed": 40, "objections": 800,
           "objections_of_killed": 50, "waits": 1500, "waits_blocked": 700, "stops": 80}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]
CBS = ["pre_start", "pre_body", "body", "post_body", "post_start"]
STATE = {"pre_start": "PRE_START", "pre_body": "PRE_BODY", "body": "BODY", "post_body": "POST_BODY", "post_start": "POST_START"}


def gen(rng, tier):
    sqrs = [gen_sqr(rng, rng.choice(["next", "next", "peek"])) for _ in range(rng.choice([1, 1, 2]))]
    seqs = gen_seqs(rng, tier, len(sqrs), tries=range(len(sqrs)))
    for j, s in enumerate(seqs):
        s["steps"] = [[*x[:3], -1, x[4], "start"] if x[0] == "item" else x for x in s["steps"]]
        s["d"] = [rng.choice([0, 0, 0, 1, 5]) for _ in range(4)]
        s["cpp"] = rng.random() < .7
        s["apo"] = rng.random() < .3
        s["runs"] = rng.choice([1, 1, 1, 2, 3]) if s["start"] is not None else 1
    acts = []
    if rng.random() < .5:
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .2:
                acts.append([rng.choice([3, 10, 30, 60]) + rng.randrange(20), "stop", rng.randrange(len(sqrs))])
            else:
                acts.append([rng.choice([1, 3, 10, 30, 60]) + rng.randrange(20), "kill", rng.randrange(len(seqs))])
    waits = [[rng.randrange(40), rng.randrange(len(seqs)), [n for n in range(9) if rng.random() < .3] or [8]] for _ in range(rng.randint(0, 5))]
    return {"sqrs": sqrs, "seqs": seqs, "acts": sorted(acts), "waits": waits}


async def run(case, mon):
    from uvm.base import uvm_object_globals as g
    from uvm.seq.uvm_sequence import UVMSequence
    names = {getattr(g, "UVM_" + n): n for n in ("CREATED", "PRE_START", "PRE_BODY", "BODY", "ENDED", "POST_BODY", "POST_START", "STOPPED",
                                                 "FINISHED")}
    masks = sorted(names)

    class Base(UVMSequence):
        def st(self):
            return names.get(self.get_sequence_state(), self.get_sequence_state())

        def pre_do(self, is_item):
            r.add("pre_do", self.j, is_item)

        def mid_do(self, this_item):
            r.add("mid_do", self.j, who(this_item))

        def post_do(self, this_item):
            r.add("post_do", self.j, who(this_item))

        def do_kill(self):
            r.add("do_kill", self.j)

        async def step(self, name, n):
            r.add("cb", self.j, name, self.st())
            d = case["seqs"][self.j]["d"][n]
            if d:
                await Timer(d * 1000 + 1, "PS")
            r.add("cb_end", self.j, name, self.st())

        async def pre_start(self):
            await self.step("pre_start", 0)

        async def pre_body(self):
            await self.step("pre_body", 1)

        async def post_body(self):
            await self.step("post_body", 2)

        async def post_start(self):
            await self.step("post_start", 3)

    def who(x):
        return ["seq", x.j] if hasattr(x, "j") else ["item", x.n]

    class Phase:
        """Stands in for the starting phase, counts objections."""

        def __init__(self):
            self.count = {}

        def raise_objection(self, obj, description="", count=1):
            r.add("raise", obj.j, count)

        def drop_objection(self, obj, description="", count=1):
            r.add("drop", obj.j, count)

    class R(Run):
        async def body(self, seq, j):
            self.add("cb", j, "body", seq.st())
            await super().body(seq, j)
            self.add("cb_end", j, "body", seq.st())

        async def start(self, j, parent):
            s = case["seqs"][j]
            q = self.seqs[j]
            for n in range(s["runs"]):
                mon.check(q.st() in ("CREATED", "STOPPED", "FINISHED"), "state-before", f"state of sequence {j} before its start: {q.st()}")
                if n:
                    mon.count("restarted")
                    mon.count("restarted_killed", q.st() == "STOPPED")
                if s["apo"]:
                    q.set_automatic_phase_objection(1)
                    q.set_starting_phase(phase)
                self.add("start", j)
                running[j] = True
                args = [self.sqrs[s["sqr"]]] + ([parent] if parent is not None or not s["cpp"] else [])
                if s["cpp"]:
                    await q.start(*args)
                else:
                    await q.start(*args, -1, 0)
                running[j] = False
                self.add("returned", j, q.st())

        async def driver(self, k, respond=None):
            s, port = case["sqrs"][k], self.drvs[k].seq_item_port
            n = 0
            while True:
                t, d = s["think"][n % 7], s["serve"][n % 5]
                n += 1
                if t:
                    await Timer(t * 1000 + 17, "PS")
                box = []
                if s["style"] == "peek":
                    await port.peek(box)
                else:
                    await port.get_next_item(box)
                e = epoch[k]
                i = box[0].n
                self.add("got", k, i)
                if d:
                    await Timer(d * 1000 + 13, "PS")
                if epoch[k] != e:
                    continue
                if s["style"] == "peek":
                    await port.get(box[1:])
                else:
                    port.item_done()
                self.add("done", k, i)

    epoch = [0] * len(case["sqrs"])
    running = {}
    phase = Phase()
    r = R(case, mon).build(seq_class=Base)
    out = Output()

    async def actor():
        last = 0
        for t, what, x in case["acts"]:
            t = t * 1000 + 333 + 2 * x
            if t <= last:
                continue
            await Timer(t - last, "PS")
            last = t
            r.add("act", what, x, [q.st() for q in r.seqs])
            if what == "kill":
                r.seqs[x].kill()
            else:
                epoch[x] += 1
                mon.count("stops")
                r.sqrs[x].stop_sequences()
            r.add("acted", what, x, [q.st() for q in r.seqs])

    async def waiter(n, t, j, states):
        if t:
            await Timer(t * 1000 + 500 + n, "PS")
        mask = 0
        for x in states:
            mask |= masks[x]
        r.add("wait", n, j, [names[masks[x]] for x in states], r.seqs[j].st())
        await r.seqs[j].wait_for_sequence_state(mask)
        r.add("waited", n, j, r.seqs[j].st())
    with out:
        ws = [spawn(mon, waiter(n, *w)) for n, w in enumerate(case["waits"])] + [spawn(mon, actor())]
        ok = await r.go(20000)
        for w in ws:
            if not w.done():
                w.kill()
        reps = [x for x in out.take()[0] if x[0] in ("UVM_ERROR", "UVM_FATAL")]
    mon.check(not reps, "reports", f"errors reported: {reps[:3]}")
    mon.check(ok, "stuck", lambda: f"sequences never ended; last steps {r.log[-6:]}")
    if ok:
        check(r, case, mon)


def check(r, case, mon):
    from uvm.base import uvm_object_globals as g
    parent = {}
    for j, s in enumerate(case["seqs"]):
        for st in s["steps"]:
            for c in [st[1]] if st[0] == "child" else st[1] if st[0] == "par" else []:
                parent[c] = j
    runs = {j: [] for j in range(len(case["seqs"]))}         # per run: list of own events
    live = {}
    used = {}                                                # running sequence -> sequencers it is known to
    trans = {j: [(-1, "CREATED")] for j in runs}             # (time, state)
    item_seq, item_ev = {}, {}
    killed_now = set()
    waits, asleep = {}, {}
    for n, e in enumerate(r.log):
        mon.event(*e)
        kind, t = e[0], e[1]
        if kind == "start":
            j = e[2]
            live[j] = [e]
            used[j] = {case["seqs"][j]["sqr"]}
            runs[j].append(live[j])
            trans[j].append((t, "PRE_START"))
        elif kind in ("cb", "cb_end", "returned", "raise", "drop", "do_kill"):
            j = e[2]
            if j not in live:
                mon.violate("after-end", f"sequence {j} not running, but {e}")
                continue
            live[j].append(e)
            if kind == "cb":
                mon.equal(e[4], STATE[e[3]], "state", f"state of sequence {j} in {e[3]}")
                trans[j].append((t, e[4]))
            elif kind == "cb_end":
                mon.equal(e[4], STATE[e[3]], "state", f"state of sequence {j} at the end of {e[3]}")
                if e[3] == "body":
                    trans[j].append((t, "ENDED"))
                elif e[3] == "post_start":
                    trans[j].append((t, "FINISHED"))
            elif kind == "returned":
                if live[j][-2][0] != "killed":
                    mon.equal(e[3], "FINISHED", "state", f"state of sequence {j} after its end")
                else:
                    mon.equal(e[3], "STOPPED", "state", f"state of sequence {j} after it was killed")
                del live[j]
        elif kind in ("pre_do", "mid_do", "post_do"):
            j = e[2]
            if j not in live:
                mon.violate("after-end", f"sequence {j} not running, but {e}")
                continue
            if kind == "pre_do":
                live[j].append(e)
            elif e[3][0] == "item":
                item_ev.setdefault(e[3][1], []).append((kind, t))
                mon.equal(item_seq.get(e[3][1]), j, "item-callbacks", f"sequence of item {e[3][1]}, {kind} called on sequence {j}")
            else:
                c = e[3][1]
                mon.equal(parent.get(c), j, "child-callbacks", f"parent of sequence {c}, {kind} called on sequence {j}")
                if c in live:
                    live[c].append((kind, t))
                else:
                    mon.violate("child-callbacks", f"{kind} for sequence {c} which does not run")
        elif kind == "req":
            item_seq[e[4]] = e[3]
            item_ev[e[4]] = []
            used[e[3]].add(e[2])
            mon.count("items")
        elif kind in ("got", "done"):
            item_ev[e[3]].append((kind, t))
            if kind == "got":
                mon.check(item_seq[e[3]] in live, "request-removed", f"item {e[3]} of sequence {item_seq[e[3]]}, which ended or was killed, "
                          f"came to the driver at {t}")
        elif kind == "fin":
            item_ev[e[4]].append((kind, t))
        elif kind == "act":
            doomed = set()

            def doom(j):
                if j in live and j not in doomed and live[j][-1][0] != "killed":
                    doomed.add(j)
                    for c in parent:
                        if parent[c] == j:
                            doom(c)
            if e[2] == "kill":
                mon.count("killed_ended", e[3] not in live and bool(runs[e[3]]))
                doom(e[3])
            else:
                for j in list(live):
                    if e[3] in used[j]:
                        doom(j)
            killed_now = doomed
            first = n
        elif kind == "acted":
            mon.count("killed", bool(killed_now))
            mon.count("killed_with_children", len(killed_now) > 1)
            mon.count("killed_child", any(j in parent and parent[j] not in killed_now for j in killed_now))
            before = r.log[first][4]
            for j in runs:
                mon.equal(e[4][j], "STOPPED" if j in killed_now else before[j], "state-after-kill",
                          f"state of sequence {j} after {e[2]} of {e[3]} at {t} (running {sorted(live)})")
            told = [x[2] for x in r.log[first:n] if x[0] == "do_kill"]
            mon.equal(sorted(told), sorted(killed_now), "do_kill", f"sequences told of {e[2]} of {e[3]} at {t}")
            for j in killed_now:
                live[j].append(("killed", t))
                trans[j].append((t, "STOPPED"))
        elif kind == "wait":
            waits[e[2]] = e
        elif kind == "waited":
            w = waits.pop(e[2])
            mon.count("waits")
            mon.count("waits_blocked", t > w[1])
            asleep[e[2]] = (w, t)
    # -- every run
    for j, rs in runs.items():
        s = case["seqs"][j]
        for ev in rs:
            mon.count("runs")
            mon.count("no_pre_post", not s["cpp"])
            mon.count("child_runs", j in parent)
            mon.nontrivial = mon.nontrivial or j in parent
            want = []
            if s["apo"]:
                want += ["raise"]
            want += ["cb pre_start", "cb_end pre_start"]
            if s["cpp"]:
                want += ["cb pre_body", "cb_end pre_body"]
            if j in parent:
                want += ["mid_do"]
            want += ["cb body", "cb_end body"]
            if j in parent:
                want += ["post_do"]
            if s["cpp"]:
                want += ["cb post_body", "cb_end post_body"]
            want += ["cb post_start", "cb_end post_start"]
            if s["apo"]:
                want += ["drop"]
            got, times, killed = [], [ev[0][1]], None
            for e in ev[1:]:
                if e[0] == "killed":
                    killed = e[1]
                elif e[0] in ("returned", "pre_do", "do_kill"):
                    continue
                else:
                    got.append(e[0] + (" " + e[3] if e[0] in ("cb", "cb_end") else ""))
                    times.append(e[1])
            if killed is not None and s["apo"]:
                mon.count("objections_of_killed")
                mon.equal([got.count("raise"), got.count("drop")], [1, 1], "objection-kill", f"objections raised, dropped by the killed sequence {j}")
                got = [x for x in got if x != "drop"]
                times = times[:len(got) + 1]
                want = want[:-1]
            mon.count("objections", s["apo"])
            if killed is None:
                mon.count("full_runs")
                mon.equal(got, want, "callbacks", f"callbacks of a run of sequence {j} at {ev[0][1]}")
                done = [e for e in ev if e[0] == "returned"]
                mon.check(len(done) == 1, "returned", f"start of sequence {j} returned {len(done)} times")
                times.append(done[0][1] if done else -1)
            else:
                mon.equal(got, want[:len(got)], "callbacks", f"callbacks of a run of sequence {j} killed at {killed}")
                done = [e for e in ev if e[0] == "returned"]
                if done:
                    mon.equal(done[0][1], killed, "returned", f"time start of sequence {j} returned, killed at")
            seq = ["start"] + got + ["returned"]
            for a in range(len(times) - 1):
                if not seq[a].startswith("cb "):         # no time passes except inside a callback
                    mon.equal(times[a + 1], times[a], "time", f"sequence {j}: time of {seq[a + 1]}, at once after {seq[a]}")
    # -- items
    for i, ev in item_ev.items():
        kinds = [k for k, _ in ev]
        if "fin" in kinds:
            tm = dict(ev)
            mon.equal([k for k in kinds if k != "done"], ["mid_do", "got", "post_do", "fin"], "item-callbacks", f"steps of item {i}")
            mon.equal([tm.get("mid_do"), tm.get("post_do"), tm.get("fin")], [tm.get("got"), tm.get("done"), tm.get("done")], "item-times",
                      f"times of mid_do, post_do and the end of the send of item {i}: delivered, done")
        else:
            mon.check("post_do" not in kinds, "item-callbacks", f"post_do of the unfinished item {i}")
    for j, rs in runs.items():
        for ev in rs:
            its = [e for e in ev if e[0] == "pre_do" and e[3]]
            kids = [e for e in ev if e[0] == "pre_do" and not e[3]]
            t0, t1 = ev[0][1], ev[-1][1]
            mine = [i for i in item_seq if item_seq[i] == j]
            if len(rs) == 1:
                started = [i for i in mine if any(k == "mid_do" for k, _ in item_ev[i])]
                mon.equal(len(its), len(started), "pre_do", f"pre_do(1) calls of sequence {j}, items started")
                ch = sum(1 for c in parent if parent[c] == j for x in runs[c] if any(y[0] == "mid_do" for y in x))
                mon.equal(len(kids), ch, "pre_do", f"pre_do(0) calls of sequence {j}, children started")
    # -- waiters
    end = r.now()
    for w, t in list(asleep.values()) + [(w, None) for w in waits.values()]:
        j, states = w[3], w[4]
        w0 = w[1]
        at = [s for n, (x, s) in enumerate(trans[j]) if x <= w0 and (n + 1 == len(trans[j]) or trans[j][n + 1][0] >= w0)]
        nxt = [x for x, s in trans[j] if x >= w0 and s in states]
        if t is None:
            mon.check(not nxt and at[-1] not in states, "state-missed", f"sequence {j} reached one of {states}: {trans[j]}, waiting since {w0}")
        elif t == w0:
            mon.check(any(s in states for s in at), "state-early", f"waiter for {states} of sequence {j} at {w0} returned at once in state {at}")
        else:
            mon.check(bool(nxt) and nxt[0] == t, "state-late", f"waiter for {states} of sequence {j} at {w0} returned at {t}, states {trans[j]}")
