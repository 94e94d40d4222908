"""The oracle knows from the script when each component holds an objection, closes these intervals up the tree with the drain times,
and so computes when each task phase must end; the end observed (phase_ended, start of the next phase) must be that instant. While the
phase lasts the callbacks beat; a beat after the end is a violation, and so is a missing one before it. Objections raised in
phase_ready_to_end prolong the phase. Instants where a raise coincides with the end of a drain are left unspecified (such cases are
dropped). Not covered: phase timeouts, processes a callback starts itself (the library cannot stop them), maximum number of
ready-to-end iterations."""
from cocotb.triggers import Timer

from vp.phasetest import FUNC2, Log, RUNTIME, TASKS, gen_comps, make_test
from vp.tasks import spawn
from vp.uvmrun import run_uvm

SIM = True
BATCH = 1
CASES = {"quick": 600, "thorough": 15000}
TECHNIQUE = "runtime monitoring: observed end of every task phase compared with an interval model of the objections raised"
LEVEL_NOTE = "Random objection scripts in random hierarchies run through all phases in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("a tree of 1-12 components raise and drop objections in random task phases with counts, delays and drain times, re-raising within and "
        "after drains, in phase_ready_to_end too; non-trivial: a phase took time; distinct: hash of the ends of phases and the beats")
REQUIRE = {"timed_phases": 800, "skipped_phases": 3000, "drained_phases": 150, "reraised_in_drain": 100, "beats": 5000, "prolonged": 60,
           "run_waited_for_runtime": 50, "runtime_waited_for_run": 50, "killed": 1000}
ASSUMPTIONS = ["a cocotb Timer ends at its time"]


def gen(rng, tier):
    comps = gen_comps(rng, rng.choice([1, 2, 5, 12]))
    for c in comps:
        c[3] = None
    n = len(comps) + 1
    script, drains, ready = {}, {}, {}
    phs = rng.sample(TASKS, rng.choice([1, 2, 3, 6]))
    for ph in (["run"] if rng.random() < .4 and "run" not in phs else []) + phs:
        script[ph] = {}
        for i in range(n):
            if rng.random() < .6:
                steps = []
                for k in range(rng.choice([1, 1, 2, 4])):
                    wait = 0 if k == 0 and rng.random() < .7 else rng.choice([0, 1, 2, 5, 9]) * 1000 + rng.randint(1, 999)
                    steps.append([wait, rng.choice([0, 1, 3, 8, 20] if ph != "run" else [3, 20, 60]) * 1000 + rng.randint(1, 999), rng.choice([1, 1, 1, 2, 5])])
                script[ph][str(i)] = steps
        drains[ph] = {str(i): rng.choice([1, 2, 3, 7, 12]) for i in range(n) if rng.random() < (.3 if rng.random() < .5 else 0)}
        if rng.random() < .5 and rng.random() < .5:
            ready[ph] = {str(i): [rng.randint(1, 9000) for _ in range(rng.choice([1, 1, 2]))] for i in range(n) if rng.random() < .3}
    return {"comps": comps, "script": script, "drains": drains, "ready": ready, "late_drain": rng.random() < .3}


class Ambiguous(Exception):
    pass


def busy(n, parent, held, drain):
    """Intervals [a,b) in which the top counts an objection. held: {object: [(a,b)]}; drains closed bottom-up."""
    depth = []
    for i in range(n):
        d, p = 0, parent[i]
        while p is not None:
            d, p = d + 1, parent[p]
        depth.append(d)
    own = {i: list(held.get(i, [])) for i in range(n)}
    top = []
    merged = 0
    for i in sorted(range(n), key=lambda i: -depth[i]):
        res = []
        for a, b in sorted(own[i]):
            if res and a <= res[-1][1] + drain.get(i, 0):
                if a == res[-1][1] + drain.get(i, 0) and a != res[-1][1]:
                    raise Ambiguous
                merged += a > res[-1][1]
                res[-1][1] = max(res[-1][1], b)
            else:
                res.append([a, b])
        res = [(a, b + drain.get(i, 0)) for a, b in res]
        (top if parent[i] is None else own[parent[i]]).extend(res)
    return sorted(top), merged


def idle_from(intervals, t):
    """First instant >= t not in an interval; a raise at that very instant is ambiguous unless it is t itself"""
    t0 = t
    for a, b in intervals:
        if a <= t < b:
            if a == t != t0:
                raise Ambiguous
            t = b
    return t


async def run(case, mon):
    log = Log()
    n = len(case["comps"]) + 1
    parent = [None] + [c[0] for c in case["comps"]]
    held = {ph: {} for ph in TASKS}         # what the script has done or will do, from the time the phase started
    extra = {ph: {} for ph in TASKS}
    rounds = {}
    beats, done = {}, {}

    async def body(comp, i, ph, phase):
        for j, d in case["drains"].get(ph, {}).items():
            if int(j) == i:
                phase.get_objection().set_drain_time(comp, d)
        t = log.now()
        for wait, hold, n in case["script"].get(ph, {}).get(str(i), []):
            held[ph].setdefault(i, []).append((t + wait, t + wait + hold))
            t += wait + hold
        for wait, hold, n in case["script"].get(ph, {}).get(str(i), []):
            if wait:
                await Timer(wait, "PS")
                beats.setdefault((ph, i), []).append(log.now())
            phase.raise_objection(comp, "script", n) if n != 1 else phase.raise_objection(comp)
            await Timer(hold, "PS")
            beats.setdefault((ph, i), []).append(log.now())
            for k in range(2 if n > 2 else 1):
                phase.drop_objection(comp, "script", (n if n <= 2 else n - 2 if k else 2))
        done[ph, i] = log.now()
        while log.now() < 400000000 and case["script"]:
            await Timer(1700, "PS")
            beats.setdefault((ph, i), []).append(log.now())

    async def prolong(comp, phase, hold):
        await Timer(hold, "PS")
        phase.drop_objection(comp, "ready")

    def observe(kind, comp, i, phase):
        ph = phase.get_name()
        if kind == "ready_to_end":
            r = rounds[ph, i] = rounds.get((ph, i), -1) + 1
            todo = case["ready"].get(ph, {}).get(str(i), [])
            if r < len(todo):
                phase.raise_objection(comp, "ready")
                spawn(mon, prolong(comp, phase, todo[r]))
                extra[ph].setdefault(log.now(), []).append((i, (log.now(), log.now() + todo[r])))
    cls, comps = make_test(case, log, body, observe)
    await run_uvm(cls)

    start, end = {}, {}
    for kind, i, ph, t in log.events:
        if ph in TASKS and kind == "call":
            start.setdefault(ph, t)
        if ph in TASKS and kind == "ended":
            end.setdefault(ph, t)
    mon.check(set(start) == set(TASKS) and set(end) == set(TASKS), "missing", f"phases started {sorted(start)}, ended {sorted(end)}")
    if set(start) != set(TASKS) or set(end) != set(TASKS):
        return

    # -- the model
    def intervals(ph, upto):
        h = {i: list(v) for i, v in held[ph].items()}
        for t, lst in extra[ph].items():
            if t <= upto:
                for i, iv in lst:
                    h.setdefault(i, []).append(iv)
        return busy(n, parent, h, {int(i): d * 1000 for i, d in case["drains"].get(ph, {}).items()})

    def expected(phs, t):
        """End of the phases phs, which must be idle together from t on, with the prolongations observed"""
        seen = -1
        for _ in range(200):
            allv, m = [], 0
            for ph in phs:
                v, k = intervals(ph, seen)
                allv += v
                m += k
            e = idle_from(sorted(allv), t)
            if e == seen:
                return e, m
            seen = e
            t = e
            if not any(e in extra[ph] for ph in phs):
                return e, m
        raise AssertionError("model does not settle")
    try:
        want, t = {}, start["run"]
        merged = {}
        for ph in RUNTIME[:-1]:
            mon.equal(start[ph], t, "start", f"{ph} starts when the phase before has ended")
            want[ph], merged[ph] = expected([ph], t)
            t = want[ph]
        mon.equal(start["post_shutdown"], t, "start", "post_shutdown starts when shutdown has ended")
        v, _ = intervals("run", -1)
        alone = idle_from(v, start["run"])
        p, _ = intervals("post_shutdown", -1)
        both, m = expected(["run", "post_shutdown"], max(t, 0))
        if alone > t:
            # the objections of run end later than post_shutdown starts: idle together from the later of the two
            mon.count("runtime_waited_for_run")
        elif alone < t:
            mon.count("run_waited_for_runtime")
        want["run"] = want["post_shutdown"] = both
        merged["run"] = m
        merged["post_shutdown"] = 0
    except Ambiguous:
        mon.count("ambiguous")
        mon.nontrivial = False
        return
    for ph in TASKS:
        mon.event("end", ph, start[ph], end[ph])
        mon.equal(end[ph], want[ph], "end", f"{ph}: started at {start[ph]} ps, objections held {intervals(ph, 1 << 60)[0]}, end")
        if end[ph] > start[ph]:
            mon.count("timed_phases")
            mon.count("drained_phases", bool(case["drains"].get(ph)))
            mon.count("reraised_in_drain", merged[ph] > 0)
            mon.count("prolonged", bool(extra[ph]))
        else:
            mon.count("skipped_phases")
        # -- the callbacks run up to the end and not beyond
        for i in range(n):
            bs = beats.get((ph, i), [])
            mon.count("beats", len(bs))
            late = [b for b in bs if b > end[ph]]
            mon.check(not late, "alive", f"{ph} ended at {end[ph]}, the callback of component {i} still ran at {late[:3]}")
            if case["script"]:
                mon.count("killed")
                gap = (done[ph, i] if (ph, i) in done else 0)
                if (ph, i) in done:
                    k = (end[ph] - gap - 1) // 1700
                    got = len([b for b in bs if gap < b < end[ph]])
                    mon.check(got >= k, "stopped-early", f"{ph}: component {i} beat {got} times after {gap}, expected {k} before the end "
                              f"at {end[ph]}")
                else:
                    nxt = [a for a, b in held[ph].get(i, []) if a < end[ph]]
                    mon.check(len(bs) >= len(nxt) - 1, "stopped-early", f"{ph}: component {i} stopped in its script")
    for kind, i, ph, t in log.events:
        if ph in FUNC2:
            mon.equal(t, max(want.values()), "after", f"{ph} {kind} after the run phase")
    mon.nontrivial = mon.counters.get("timed_phases", 0) > 0
