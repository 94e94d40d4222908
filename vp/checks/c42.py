"""C42: default sequences of the run-time phases, and what agents read from the configuration.

Each case builds agents with sequencers, sets default sequences (instances and types) for their phases with overlapping patterns from
several places, runs all phases and compares the recorded sequence callbacks, phase times and kills with a timeline computed from the
settings."""
import itertools

from cocotb.triggers import Timer

from vp.monitor import Output
from vp.uvmrun import glob, run_uvm

SIM = True
BATCH = 1
CASES = {"quick": 320, "thorough": 6000}
SIM_LIMIT_NS = 2000000
TECHNIQUE = "runtime monitoring: recorded callbacks of default sequences and phase times against a timeline computed from the settings"
LEVEL_NOTE = "Random settings, phases and sequences on the real phases, sequencers and configuration in a real cocotb simulation; exploration, no claim beyond what ran."
RULE = ("1-3 agents with a sequencer and driver each, 1-8 settings of default sequences for exact or wildcard paths, 1-6 run-time phases with "
        "or without an objection of the test; non-trivial: two default sequences ran; distinct: hash of the log")
REQUIRE = {"started": 500, "killed": 80, "held": 80, "contested": 60, "disabled": 20, "overridden": 60, "items": 400, "phases": 800, "passive": 60,
           "active_contested": 30, "instances": 100, "types": 300, "randomized": 300, "only_automatic": 20, "not_sequence": 10}
ASSUMPTIONS = ["a cocotb Timer ends at its time", "instances and types of sequences are not set for the same phase of a sequencer"]
PHASES = ["pre_reset", "reset", "post_reset", "pre_configure", "configure", "post_configure", "pre_main", "main", "post_main", "pre_shutdown",
          "shutdown", "post_shutdown"]
_ids = itertools.count()


def gen(rng, tier):
    agents = [{"env": rng.random() < .5} for _ in range(rng.choice([1, 1, 2, 3]))]
    paths = [f"uvm_test_top.{'env.' if a['env'] else ''}a{i}" for i, a in enumerate(agents)]
    phases = sorted(rng.sample(PHASES, rng.randint(1, 5 if tier == "quick" else 8)), key=PHASES.index) + (["run"] if rng.random() < .6 else [])
    kind = rng.choice(["type", "type", "instance"])
    sets = []
    for _ in range(rng.randint(1, 8)):
        a, ph = rng.choice(paths), rng.choice(phases) + "_phase"
        pat = f"{a}.sqr.{ph}"
        if kind == "type":
            pat = rng.choice([pat, pat, f"*.sqr.{ph}", f"{a}.*.{ph}", f"*{ph}", f"{a}.sqr.*_phase" if rng.random() < .3 else pat])
        ctx = rng.choice(["none", "none", "top"])
        sets.append([ctx, pat[len("uvm_test_top."):] if ctx == "top" and pat.startswith("uvm_test_top.") else pat,
                     None if rng.random() < .12 else "X" if kind == "type" and rng.random() < .06 else rng.choice(["A", "B"]),
                     {"steps": [rng.choice([["delay", rng.randint(0, 20)], ["delay", rng.randint(0, 20)], ["item", rng.randint(0, 5)]])
                                for _ in range(rng.randint(0, 4))], "apo": rng.random() < .4}, rng.choice(["before", "build", "connect"])])
    acts = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        a = rng.choice(paths)
        acts.append([rng.choice(["none", "top", "parent"]), rng.choice([a, a, "*", a[:-1] + "*"]), rng.random() < .5])
    return {"agents": agents, "phases": phases, "kind": kind, "sets": sets, "acts": acts,
            "hold": {p: rng.choice([None, None, 0, 3, 10, 25, 40]) for p in phases},
            "types": {t: {"steps": [rng.choice([["delay", rng.randint(0, 20)], ["item", rng.randint(0, 5)]]) for _ in range(rng.randint(0, 3))],
                          "apo": rng.random() < .5} for t in "ABC"},
            "override": rng.choice([None, None, ["type", "A", "C"], ["inst", "A", "C", rng.choice(["*", paths[0] + ".sqr", paths[-1] + "*"])]])}


async def run(case, mon):
    from uvm.base import uvm_object_globals as g
    from uvm.base.sv import sv
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.comps.uvm_agent import UVMAgent
    from uvm.comps.uvm_driver import UVMDriver
    from uvm.macros.uvm_object_defines import uvm_component_utils, uvm_object_utils
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.seq.uvm_sequencer import UVMSequencer
    tag = next(_ids)
    log, times, seqs = [], {}, []
    paths = [f"uvm_test_top.{'env.' if a['env'] else ''}a{i}" for i, a in enumerate(case["agents"])]

    def now():
        return int(sv.realtime())

    class Seq(UVMSequence):
        def __init__(self, name="", spec=None, label=None):
            super().__init__(name)
            self.spec, self.label = spec or case["types"][type(self).letter], label or type(self).letter
            self.set_automatic_phase_objection(self.spec["apo"])
            self.rnd = 0
            self.rand("rnd", range(1, 9))
            self.key = None

        def note(self, what):
            if self.key is None:
                ph = self.get_starting_phase()
                self.key = (self.get_sequencer().get_full_name() if self.get_sequencer() else None, ph and ph.get_name())
                self.name0 = self.get_name()
                seqs.append(self)
            log.append((self.key, self.label, what, now()))

        async def pre_start(self):
            self.note("pre_start")
            mon.check(self.rnd in range(1, 9), "randomized", "a default sequence is randomized before it starts", value=self.rnd)
            mon.count("randomized")

        async def pre_body(self):
            self.note("pre_body")

        async def body(self):
            self.note("body")
            for what, n in self.spec["steps"]:
                if what == "delay":
                    await Timer(n, "NS")
                else:
                    it = UVMSequenceItem("it")
                    it.n, it.owner = n, self
                    await self.start_item(it)
                    await self.finish_item(it)
                self.note("step")

        async def post_body(self):
            self.note("post_body")

        async def post_start(self):
            self.note("post_start")

        def do_kill(self):
            self.note("killed")
    types = {}
    for t in "ABC":
        types[t] = type(f"VpC42{t}{tag}", (Seq,), {"letter": t})
        uvm_object_utils(types[t])

    types["X"] = type(f"VpC42X{tag}", (UVMObject,), {})
    uvm_object_utils(types["X"])

    class Drv(UVMDriver):
        async def run_phase(self, phase):
            while True:
                got = []
                await self.seq_item_port.get_next_item(got)
                await Timer(got[0].n, "NS")
                log.append((got[0].owner.key, got[0].owner.label, "item", now()))
                mon.check(got[0].owner.key[0] == self.get_parent().sqr.get_full_name(), "item-place", "an item reaches the driver of its sequencer")
                mon.count("items")
                self.seq_item_port.item_done()

    class Agent(UVMAgent):
        def build_phase(self, phase):
            super().build_phase(phase)
            self.seen = self.get_is_active()
            self.sqr = UVMSequencer("sqr", self)
            self.drv = Drv("drv", self)

        def connect_phase(self, phase):
            self.drv.seq_item_port.connect(self.sqr.seq_item_export)
    agents = []
    model, clock = [], [0]

    def put(ctx, pat, value, spec, name, comp, building, depth=None):
        full = pat if ctx == "none" else "uvm_test_top" + ("" if pat.startswith(".") else ".") + pat.lstrip(".")
        if ctx == "none":
            UVMConfigDb.set(None, pat, name, value)
        else:
            UVMConfigDb.set(comp, pat, name, value)
        clock[0] += 1
        prec = 1000 - (1 if building and ctx != "none" else 0)
        for e in model:
            if (e["ctx"], e["pat"], e["field"]) == (ctx, full, name):
                e.update(val=value, prec=prec, time=clock[0], spec=spec)
                return
        model.append({"ctx": ctx, "pat": full, "field": name, "val": value, "prec": prec, "time": clock[0], "spec": spec})

    def lookup(path, field, count=None):
        c = [e for e in model if e["field"] == field and glob(e["pat"], path)]
        if len(c) > 1 and count:
            mon.count(count)
        return max(c, key=lambda e: (e["prec"], e["time"])) if c else None

    def settings(when, top):
        for n, (ctx, pat, what, spec, w) in enumerate(case["sets"]):
            if w != when:
                continue
            if ctx == "top" and top is None:
                ctx, pat = "none", pat if pat.startswith("*") or pat.startswith("uvm") else "uvm_test_top." + pat
            if what is None:
                v = None
            elif case["kind"] == "type":
                v, spec = types[what].type_id.get(), what
            else:
                v = Seq(f"inst{n}", spec, f"i{n}")
            put(ctx, pat, v, spec, "default_sequence", top, when == "build")
        if when == "build":
            for ctx, pat, act in case["acts"]:
                v = g.UVM_ACTIVE if act else g.UVM_PASSIVE
                if ctx == "top":
                    put("top", pat[len("uvm_test_top."):] if pat.startswith("uvm_test_top.") else pat, v, act, "is_active", top, True)
                else:
                    put("none", pat, v, act, "is_active", None, True)

    class C42Test(UVMComponent):
        def build_phase(self, phase):
            super().build_phase(phase)
            settings("build", self)
            self.env = UVMComponent("env", self)
            for i, a in enumerate(case["agents"]):
                agents.append(Agent(f"a{i}", self.env if a["env"] else self))

        def connect_phase(self, phase):
            settings("connect", self)

    def task(name):
        hold = case["hold"].get(name)

        async def body(self, phase):
            times[name] = [now(), None]
            if hold is not None:
                phase.raise_objection(self)
                await Timer(hold, "NS")
                phase.drop_objection(self)
        return body
    for p in PHASES + ["run"]:
        setattr(C42Test, p + "_phase", task(p))

    def ended(self, phase):
        if phase.get_name() in times:
            times[phase.get_name()][1] = now()
    C42Test.phase_ended = ended
    uvm_component_utils(C42Test)
    settings("before", None)
    if case["override"]:
        how, a, b, *path = case["override"]
        f = UVMCoreService.get().get_factory()
        if how == "type":
            f.set_type_override_by_type(types[a].type_id.get(), types[b].type_id.get())
        else:
            f.set_inst_override_by_type(types[a].type_id.get(), types[b].type_id.get(), path[0])
    with Output() as out:
        await run_uvm(C42Test)
    warned = 0
    for sev, rid, line in out.reports():
        if rid == "PHASESEQ" and sev == "UVM_WARNING":
            warned += 1
            continue
        mon.check(sev not in ("UVM_ERROR", "UVM_FATAL", "UVM_WARNING") or rid == "UVM_DEPRECATED", "report", f"the run reported {line}")

    # -- agents
    for i, a in enumerate(agents):
        e = lookup(paths[i], "is_active", "active_contested")
        want = e["val"] if e else g.UVM_ACTIVE
        mon.count("passive", want == g.UVM_PASSIVE)
        mon.equal(a.seen, want, "is-active", "is_active of an agent after its build phase", settings=[(e["pat"], e["prec"], e["spec"]) for e in model if e["field"] == "is_active"])

    # -- the sequences of each phase
    wrong = []

    def chosen(path, ph):
        e = lookup(f"{path}.sqr.{ph}_phase", "default_sequence", "contested")
        if e is None:
            return None
        if e["val"] is None:
            mon.count("disabled")
            return None
        if case["kind"] == "instance":
            mon.count("instances")
            return e["val"].label, e["val"].spec, e["val"].get_name()
        mon.count("types")
        if e["spec"] == "X":
            mon.count("not_sequence")
            wrong.append(path)
            return None
        t = e["spec"]
        o = case["override"]
        name = e["val"].get_type_name()
        if o and o[1] == t and (o[0] == "type" or glob(o[3], path + ".sqr." + name) or glob(o[3], path + ".sqr")):
            full = path + ".sqr." + name
            if o[0] == "type" or glob(o[3], full):
                t = o[2]
                mon.count("overridden")
        return t, case["types"][t], name
    started = 0
    at = 0
    seen = []
    extras = {k for k, *_ in log}
    run_t0 = times["pre_reset"][0]
    for ph in PHASES + ["run"]:
        mon.count("phases")
        t0 = run_t0 if ph == "run" else at
        mon.equal(times[ph][0], t0, "phase-start", "start time of a phase", phase=ph)
        picks = {p: chosen(p, ph) for p in paths}
        hold = case["hold"].get(ph)
        end = t0 + (hold or 0)
        runs = {}
        for p, c in picks.items():
            if c is None:
                continue
            started += 1
            mon.count("started")
            key = (p + ".sqr", ph)
            mine = [x for x in log if x[0] == key]
            extras.discard(key)
            runs[p] = mine
            if c[1]["apo"]:
                done = [x[3] for x in mine if x[2] == "post_start"]
                if not mon.check(bool(done), "held-to-end", "a sequence that holds its phase ends before the phase does", phase=ph, seq=c[0], log=mine):
                    continue
                mon.count("held")
                mon.count("only_automatic", hold is None)
                end = max(end, done[0])
        seen.append([ph, t0, end, hold, picks, runs])
        if ph != "run":
            at = end
    # the run phase and the last of the others end together
    seen[-1][2] = seen[-2][2] = max(seen[-1][2], seen[-2][2])
    for ph, t0, end, hold, picks, runs in seen:
        mon.equal(times[ph][1], end, "phase-end", "end time of a phase held by its objections and by automatic objections", phase=ph, hold=hold,
                  picks={p: c and (c[0], c[1]["apo"]) for p, c in picks.items()}, log=[x for x in log if x[0] and x[0][1] == ph])
        for p, mine in runs.items():
            judge(case, mon, ph, t0, end, picks[p], mine, seqs)
    mon.equal(sorted(map(str, extras)), [], "unexpected", "default sequences that ran for a sequencer or phase without one")
    mon.equal(warned, len(wrong), "not-sequence", "warnings of default sequences whose type is no sequence")
    mon.nontrivial = started >= 2
    mon.event("log", str(log))


def judge(case, mon, ph, t0, end, pick, mine, seqs):
    label, spec, name = pick
    key = dict(phase=ph, seq=label, start=t0, end=end, spec=spec, log=mine)
    whats = [x[2] for x in mine]
    # a sequence ends or is killed
    own = [x for x in mine if x[2] != "item"]
    full = ["pre_start", "pre_body", "body"] + ["step"] * len(spec["steps"]) + ["post_body", "post_start"]
    got = [x[2] for x in own]
    if not mon.check(bool(own), "started", "a default sequence starts", **key):
        return
    mon.equal({x[1] for x in mine}, {label}, "which", "the default sequence that ran", **key)
    if "killed" in got:
        mon.count("killed")
        mon.equal(got, full[:len(got) - 1] + ["killed"], "order", "callbacks of a default sequence killed at the end of its phase", **key)
        mon.equal(own[-1][3], end, "kill-time", "when an unfinished default sequence is killed", **key)
        mon.check(len(got) - 1 < len(full), "kill-needless", "a default sequence that has ended is not killed", **key)
    else:
        mon.equal(got, full, "order", "callbacks of a default sequence", **key)
        mon.check(own[-1][3] <= end, "late", "a default sequence runs on after its phase", **key)
    mon.equal(own[0][3], t0, "start-time", "when a default sequence starts", **key)
    # the delays of the sequence itself
    t = t0
    for i, (what, n) in enumerate(spec["steps"]):
        at = [x[3] for x in own if x[2] == "step"]
        if i < len(at):
            mon.check(at[i] == t + n if what == "delay" else at[i] >= t + n, "step-time", "time of a step of a default sequence", step=i, **key)
            t = at[i]
    s = [x for x in seqs if x.key == mine[0][0] and x.label == label]
    mon.equal(len(s), 1, "once", "number of sequences started for a phase of a sequencer", **key)
    mon.equal(s[0].name0, name, "name", "name of a default sequence", **key)
    mon.check(s[0].get_parent_sequence() is None, "parent", "a default sequence has no parent sequence", **key)
    mon.count("waited", "item" in whats)
