"""The oracle replays the recorded log of each sequencer: at every grant it knows which requests were waiting, which of them were
relevant, their priorities and order, and decides whether the granted one may be chosen; a driver that asks gets a grant at the first
instant a relevant request waits. Requests and relevance changes at the very instant of a grant count as unordered with it, except that
requests made before the granted one were waiting. Frequencies of random and weighted arbitration are judged at six standard deviations.
Not covered: lock and grab, which this port does not implement."""
from vp.monitor import Output
from vp.seqrun import ARBS, Run, gen_seqs, gen_sqr

SIM = True
BATCH = 20
CASES = {"quick": 1200, "thorough": 20000}
SIM_LIMIT_NS = 1000000
TECHNIQUE = "runtime monitoring: replay of the recorded requests, relevance changes and grants against the arbitration rules"
LEVEL_NOTE = "Random sequences and drivers on the real sequencer in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-20 sequences with sequence and item priorities, toggling relevance, nested and parallel children on 1-2 sequencers with any of "
        "the six arbitrations, changed at times during the run; plus runs with permanently waiting sequences for frequencies; "
        "non-trivial: a grant with two or more waiting requests; distinct: hash of the log")
REQUIRE = {"grants": 8000, "with_choice": 3000, "not_oldest": 400, "priority_mattered": 300, "skipped_irrelevant": 300,
           "waited_for_relevance": 100, "user_choices": 150, "freq_grants": 3000, "positions": 50}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]


def gen(rng, tier):
    if rng.random() < .05:
        n = rng.choice([2, 2, 3, 4, 5, 8])
        few = rng.choice([[1, 2, 3, 5, 10, 50], [1, 2], [1]])
        pr = [rng.choice(few) for _ in range(n)]
        return {"kind": "freq", "sqrs": [{"arb": rng.choice(["RANDOM", "WEIGHTED", "STRICT_RANDOM"]), "style": "next", "think": [1],
                                          "serve": [0]}],
                "seqs": [{"sqr": 0, "start": 0, "prio": p, "rel": [], "steps": [["item", 0, 0, -1, -1, "start"]] * 150} for p in pr]}
    sqrs = [gen_sqr(rng) for _ in range(rng.choice([1, 1, 2]))]
    for s in sqrs:
        s["arb"] = rng.choice(ARBS)
        s["think"] = [rng.choice([1, 3, 10, 20]) for _ in range(7)]
    tries = [k for k, s in enumerate(sqrs) if s["style"] in ("try", "mix")]
    return {"kind": "mix", "sqrs": sqrs, "user": rng.choice(["last", "middle", "item"]),
            "seqs": gen_seqs(rng, tier, len(sqrs), prios=True, rels=rng.random() < .5, tries=tries)}


async def run(case, mon):
    from uvm.seq.uvm_sequencer import UVMSequencer

    class Sqr(UVMSequencer):
        def user_priority_arbitration(self, avail):
            idx = [avail[k] for k in range(len(avail))]
            how = case.get("user")
            pick = {"last": idx[-1], "middle": idx[len(idx) // 2],
                    "item": max(idx, key=lambda x: (self.arb_sequence_q[x].item_priority, x))}[how]
            r.add("user", r.sqrs.index(self), [self.arb_sequence_q[x].sequence_ptr.j for x in idx], self.arb_sequence_q[pick].sequence_ptr.j)
            return pick
    r = Run(case, mon).build(sqr_class=Sqr)
    for k, s in enumerate(case["sqrs"]):
        from uvm.base import uvm_object_globals as g
        mon.equal(r.sqrs[k].get_arbitration(), getattr(g, "UVM_SEQ_ARB_" + s["arb"]), "setting", "arbitration read back")
    out = Output()
    with out:
        ok = await r.go(20000)
        reps = [x for x in out.take()[0] if x[0] in ("UVM_ERROR", "UVM_FATAL")]
    mon.check(not reps, "reports", f"errors reported: {reps[:3]}")
    if case["kind"] == "freq":
        freq(r, case, mon)
        return
    mon.check(ok, "stuck", lambda: f"sequences never ended; last steps {r.log[-6:]}")
    check(r, case, mon)


def freq(r, case, mon):
    arb = case["sqrs"][0]["arb"]
    left = [150] * len(case["seqs"])
    pr = [s["prio"] for s in case["seqs"]]
    if arb == "RANDOM":
        w = [1] * len(pr)
    elif arb == "WEIGHTED":
        w = pr
    else:
        w = [p == max(pr) for p in pr]
    seen = [0] * len(pr)
    at, exp, var = [0] * len(pr), [0.] * len(pr), [0.] * len(pr)      # the same by position among the waiting requests
    queue = []
    for e in r.log:
        if e[0] == "req":
            queue.append((e[3], e[4]))
        if e[0] != "grant":
            continue
        mon.event(*e)
        if min(left) > 0 and len(queue) == len(pr):            # all of them waiting
            seen[e[3]] += 1
            for n, (j, i) in enumerate(queue):
                p = w[j] / sum(w)
                exp[n] += p
                var[n] += p * (1 - p)
                at[n] += i == e[4]
        queue = [x for x in queue if x[1] != e[4]]
        left[e[3]] -= 1
    n = sum(seen)
    mon.count("freq_grants", n)
    for j, x in enumerate(w):
        p = x / sum(w)
        dev = 6 * (n * p * (1 - p)) ** .5 + 2
        mon.check(abs(seen[j] - n * p) <= (dev if 0 < p < 1 else 0), "frequency",
                  f"{arb}: sequence {j} (priorities {pr}) was granted {seen[j]} of {n} times, expected {n * p:.0f} +- {dev:.0f}")
    for n in range(len(pr)):
        dev = 6 * var[n] ** .5 + 2
        mon.check(abs(at[n] - exp[n]) <= dev, "frequency-position",
                  f"{arb}: request number {n} among the waiting ones (priorities {pr}) was granted {at[n]} times, expected {exp[n]:.0f} +- {dev:.0f}")
        mon.count("positions", var[n] > 1)
    mon.nontrivial = True


def prios(case):
    parent = {}
    for j, s in enumerate(case["seqs"]):
        for st in s["steps"]:
            for c in [st[1]] if st[0] == "child" else st[1] if st[0] == "par" else []:
                parent[c] = j

    def p(j):
        return case["seqs"][j]["prio"] if case["seqs"][j]["prio"] > 0 else p(parent[j]) if j in parent else 100
    return [p(j) for j in range(len(case["seqs"]))]


def check(r, case, mon):
    pr = prios(case)
    granted = {}
    for n, e in enumerate(r.log):
        mon.event(*e)
        if e[0] == "grant":
            granted[e[4]] = n
        elif e[0] == "got":
            granted.setdefault(e[3], n)
    rel = {j: [(-1, True)] for j in range(len(case["seqs"]))}
    for e in r.log:
        if e[0] == "rel":
            rel[e[2]].append((e[1], e[3]))

    def relevant(j, a, b):
        """(always, ever) relevant in [a, b]"""
        states = [v for n, (t, v) in enumerate(rel[j]) if t <= b and (n + 1 == len(rel[j]) or rel[j][n + 1][0] >= a)]
        return all(states), any(states)

    def ready(j, a, b):
        """instant in (a, b), both excluded, at which the sequence was relevant"""
        for n, (t, v) in enumerate(rel[j]):
            end = rel[j][n + 1][0] if n + 1 < len(rel[j]) else 1 << 60
            lo, hi = max(t, a), min(end, b)
            if v and hi - lo > 1:
                return lo
        return None
    for k, s in enumerate(case["sqrs"]):
        arb = s["arb"]
        waiting = []                 # requests in order: (item, sequence, time, priority, log position)
        want = None
        last_user = None
        for n, e in enumerate(r.log):
            if e[0] == "req" and e[2] == k:
                j, i = e[3], e[4]
                own = r.items[i].vp_prio if hasattr(r.items[i], "vp_prio") else -1
                eff = own if own > 0 else pr[j]
                mon.equal(e[5], eff, "priority", f"priority of a request of sequence {j}, item priority {own}")
                waiting.append((i, j, e[1], eff, n))
            elif e[0] == "want" and e[2] == k:
                want = e
            elif e[0] == "user" and e[2] == k:
                last_user = e
                mon.count("user_choices")
                have = [x[1] for x in waiting]
                mon.check(all(j in have for j in e[3]), "user-available", f"user arbitration was offered sequences {e[3]}, waiting {have}")
                mon.check(all(relevant(j, e[1], e[1])[1] for j in e[3]), "user-available", f"user arbitration was offered irrelevant {e[3]}")
                for x in waiting:
                    if x[2] < e[1] and relevant(x[1], e[1], e[1])[0]:
                        mon.check(x[1] in e[3], "user-available", f"user arbitration was not offered the waiting sequence {x[1]}, only {e[3]}")
            elif e[0] == "none" and e[2] == k:
                t = e[1]
                missed = [x[0] for x in waiting if x[2] < t and relevant(x[1], t, t)[0]]
                mon.check(not missed, "try-missed", f"try_next_item at {t} returned nothing while items {missed} waited")
            i = e[4] if e[0] == "grant" else e[3] if e[0] == "got" else None
            if i is None or granted.get(i) != n or e[2] != k:
                continue
            t = e[1]
            it = next((x for x in waiting if x[0] == i), None)
            if it is None:
                mon.violate("not-waiting", f"item {i} granted at {t} without waiting")
                continue
            mon.count("grants")
            others = [x for x in waiting if x[0] != i]
            waiting = others
            mon.check(relevant(it[1], t, t)[1], "irrelevant", f"{arb}: item {i} of sequence {it[1]} granted at {t} while it was not relevant")
            sure = [x for x in others if (x[2] < t or x[4] < it[4]) and relevant(x[1], t, t)[0]]
            mon.count("with_choice", bool(sure))
            if sure:
                mon.nontrivial = True
            mon.count("not_oldest", any(x[4] < it[4] for x in sure))
            mon.count("priority_mattered", arb.startswith("STRICT") and any(x[4] < it[4] and x[3] < it[3] for x in sure))
            mon.count("skipped_irrelevant", any(x[4] < it[4] and not relevant(x[1], t, t)[1] for x in others))
            if arb == "FIFO":
                bad = [x[0] for x in sure if x[4] < it[4]]
                mon.check(not bad, "fifo", f"item {i} granted at {t} before the earlier requests {bad}")
            elif arb.startswith("STRICT"):
                bad = [x[0] for x in sure if x[3] > it[3]]
                mon.check(not bad, "strict", f"item {i} of priority {it[3]} granted at {t} before items {bad} of higher priority")
                if arb == "STRICT_FIFO":
                    bad = [x[0] for x in sure if x[3] == it[3] and x[4] < it[4]]
                    mon.check(not bad, "strict-fifo", f"item {i} granted at {t} before earlier requests {bad} of the same priority")
            elif arb == "USER":
                if last_user is not None:
                    mon.equal(it[1], last_user[4], "user", f"sequence granted at {t}, user arbitration chose")
                    last_user = None
                else:
                    mon.check(not sure, "user-asked", f"item {i} granted at {t} without asking user arbitration; waiting {[x[0] for x in sure]}")
            # -- no waiting while a relevant request is there
            w = want[1] if want else 0
            mon.check(w <= t, "early", f"item {i} granted at {t} before the driver asked")
            late = [(x[0], ready(x[1], max(w, x[2]), t)) for x in [it] + others]
            late = [x for x in late if x[1] is not None]
            mon.check(not late, "late", f"{arb}: driver asked at {w}, item {i} granted at {t}, but a relevant request waited: (item, since) {late[:3]}")
            mon.count("waited_for_relevance", max(w, it[2]) < t)
