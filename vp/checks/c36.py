"""C36: command line settings against a model of what each of them does.

Every case starts a simulation of its own with generated plus arguments, runs a test whose components make reports in every phase and at
several times, and compares what was displayed and counted, created, configured and looked up with the settings given."""
import json
import os
import random
import re
import subprocess
import tempfile
import shutil

from vp.uvmrun import glob

BATCH = 4
CASES = {"quick": 320, "thorough": 3000}
TECHNIQUE = "runtime monitoring: reports, created types, configuration and lookups of whole simulations started with generated arguments, checked against a model of the arguments"
LEVEL_NOTE = "Random argument sets, one real simulation each; exploration, no claim beyond what ran."
RULE = ("0-14 arguments over a tree of 3-8 components, 25-70 reports; non-trivial: a setting changed the outcome of some report and not of another; distinct: the arguments")
REQUIRE = {"checked_report": 5000, "changed_early": 150, "changed_late": 500, "good_args": 200, "bad_args": 60, "idle_args": 8, "overridden": 100, "configured": 80, "dumps": 20,
           "quit": 30, "timeout": 30, "prefix_hits": 180, "regex_hits": 130}
PROBES = [{"probe": "regex-last-char"}]
ASSUMPTIONS = ["Settings that end the simulation (exit, stop, fatal) are not given.", "Severity and action settings are for components below the test; the root's own reports keep theirs."]
VERBS = {"UVM_NONE": 0, "UVM_LOW": 100, "UVM_MEDIUM": 200, "UVM_HIGH": 300, "UVM_FULL": 400, "UVM_DEBUG": 500}
SEVS = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR"]
IDS = ["A", "B", "CRC"]
TIMES = [5, 15, 25, 35]
PHASES = ["build", "connect", "end_of_elaboration"] + ["t%d" % t for t in TIMES] + ["extract"]


def gen(rng, tier):
    top = "uvm_test_top"
    tree = {top: ["env0", "env1"][:rng.choice([1, 2])]}
    for e in list(tree[top]):
        tree[top + "." + e] = rng.sample(["a", "b", "ag"], rng.choice([1, 1, 2, 3]))
    names = [top] + ["%s.%s" % (p, k) for p, ks in tree.items() for k in ks]

    def pattern(any_ok=False):
        full = rng.choice(names)
        r = rng.random()
        if r < .3:
            return full
        if r < .5:
            return full.rsplit(".", 1)[0] + ".*"
        if r < .65:
            return full[:-1] + "?"
        if r < .8:
            return top + "*"
        if r < .9:
            return top + ".nothing.*"
        return "*" if any_ok else top + ".*" + full[-1]
    args = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 8])):
        r = rng.random()
        ident = rng.choice(["_ALL_", "_ALL_"] + IDS)
        if r < .1:
            args.append("+UVM_VERBOSITY=" + rng.choice(list(VERBS) + ["LOW", "HIGH", "FULL", "250", "junk"]))
        elif r < .45:
            ph = rng.choice(["build", "", "connect", "end_of_elaboration", "extract", "run", "time", "time", "time", "time", "bad"])
            verb = rng.choice(list(VERBS) + ["NONE", "DEBUG"])
            if ph == "bad":
                args.append("+uvm_set_verbosity=" + rng.choice(["%s,%s,%s", "%s,%s,%s,time,10,x", "%s,%s,WRONG%s,build", "%s"]) .replace("%s", pattern(True), 1)
                            .replace("%s", ident, 1).replace("%s", verb, 1))
            else:
                tail = [ph] + ([str(rng.choice([10, 20, 30, 30]))] if ph == "time" else [])
                if ph in ("run", "connect") and rng.random() < .3:
                    tail.append(str(10 * rng.randint(0, 3) + 1 + len(args) % 4))
                args.append("+uvm_set_verbosity=" + ",".join([pattern(True), ident, verb] + tail))
        elif r < .65:
            act = rng.choice(["UVM_NO_ACTION", "UVM_DISPLAY", "UVM_COUNT", "UVM_DISPLAY|UVM_COUNT", "UVM_LOG|UVM_DISPLAY", "UVM_LOG", "UVM_RM_RECORD|UVM_COUNT", "UVM_BAD", "UVM_DISPLAY|BAD"])
            sev = rng.choice(["_ALL_"] + SEVS + SEVS + ["UVM_FATAL", "UVM_ODD"])
            args.append("+uvm_set_action=" + ",".join([pattern(), ident, sev, act][:rng.choice([4] * 12 + [3, 2])]))
        elif r < .8:
            args.append("+uvm_set_severity=" + ",".join([pattern(), ident, rng.choice(["_ALL_"] + SEVS + SEVS + ["UVM_ODD"]), rng.choice(SEVS + ["UVM_STRANGE"] * (rng.random() < .3))]
                                                        [:rng.choice([4] * 12 + [3])]))
        elif r < .9:
            if rng.random() < .5:
                args.append(rng.choice(["+uvm_set_inst_override=", "+UVM_SET_INST_OVERRIDE="]) + "VpDrv,VpDrv%d,%s" % (rng.randint(1, 2), pattern()))
            else:
                args.append(rng.choice(["+uvm_set_type_override=", "+UVM_SET_TYPE_OVERRIDE="]) + "VpDrv,VpDrv%d%s" % (rng.randint(1, 2), rng.choice(["", "", ",0", ",1"])))
        elif r < .95:
            args.append("+uvm_set_config_int=" + ",".join([pattern(True), rng.choice(["i0", "i1"]), rng.choice(["5", "-3", "0", "'b101", "0b11", "'o17", "'d12", "'hfF", "'x1a", "0x2B"])]))
        else:
            args.append("+uvm_set_config_string=" + ",".join([pattern(True), rng.choice(["s0", "s1"]), rng.choice(["hello", "a b", ""])]))
    if rng.random() < .35:
        args.append(rng.choice(["+UVM_TIMEOUT=2000", "+UVM_TIMEOUT=3000,YES", "+UVM_TIMEOUT=4000,NO", "+UVM_TIMEOUT=6000,ODD"]))
    if rng.random() < .3:
        args.append(rng.choice(["+UVM_MAX_QUIT_COUNT=1000", "+UVM_MAX_QUIT_COUNT=1200,YES", "+UVM_MAX_QUIT_COUNT=1300,NO", "+UVM_MAX_QUIT_COUNT=1400,ODD"]))
    if rng.random() < .3:
        args.append("+UVM_TESTNAME=VpCmdTest" + rng.choice("AB"))
        if rng.random() < .3:
            args.append("+UVM_TESTNAME=VpCmdTest" + rng.choice("AB"))
    if rng.random() < .2:
        args.append("+UVM_DUMP_CMDLINE_ARGS")
    for _ in range(rng.choice([0, 1, 2, 4])):
        args.append(rng.choice(["+foo=1", "+foo=2", "+foobar", "+foo", "+bar=x+y", "+x.y=3", "+uvmish", "+Uvm_thing=1", "+FOO=3", "+aafoo"]))
    rng.shuffle(args)
    looks = [[rng.choice(["value", "values", "matches"]), rng.choice(["+foo=", "+foo", "+bar", "+none", "+", "foo", "+uvm", "+x.y=", "+UVM_"])] for _ in range(4)]
    looks += [["matches", rng.choice(["/foo/", "/^.foo/", "/=[0-9]$/", "/o$/", "/UVM|bar/", "/x.y/", "/zzz/", "/^\\+foo(bar)?$/"])] for _ in range(3)]
    emits = []
    for _ in range(rng.randint(25, 70)):
        where = rng.choice(PHASES)
        emits.append({"where": where, "comp": rng.choice(names), "sev": rng.choice(SEVS), "id": rng.choice(IDS), "verb": rng.choice(list(VERBS))})
    case = {"args": args, "tree": tree, "names": names, "lookups": looks, "emits": emits, "times": TIMES}
    # an error before the end of elaboration ends the run: reports that are, or may become, errors come later
    for e in emits:
        if e["where"] in ("build", "connect") and (e["sev"] == "UVM_ERROR" or any(a.startswith("+uvm_set_severity") and "UVM_ERROR" in a for a in args)):
            e["where"] = "extract"
    return case


# --- the model ---------------------------------------------------------------------------------------------------------------------
def values(args, prefix):
    return [a[len(prefix):] for a in args if a.startswith(prefix)]


def verb_of(s):
    return VERBS.get(s, VERBS.get("UVM_" + s))


class Model:
    def __init__(self, args, names):
        self.args, self.names = args, names
        self.bad, self.idle = [], []       # (argument value) of settings that must be reported as wrong / as never used
        self.verb, self.action, self.sev = [], [], []
        for v in values(args, "+uvm_set_verbosity="):
            f = v.split(",")
            if len(f) not in (4, 5) or verb_of(f[2]) is None:
                self.bad.append(v)
            else:
                self.verb.append((f[0], f[1], verb_of(f[2]), f[3], int(f[4]) if len(f) == 5 else 0))
        for kind, keep, ok in (("action", self.action, lambda x: all(a in ("UVM_NO_ACTION", "UVM_DISPLAY", "UVM_LOG", "UVM_COUNT", "UVM_RM_RECORD") for a in x.split("|"))),
                               ("severity", self.sev, lambda x: x in SEVS + ["UVM_FATAL"])):
            for v in values(args, "+uvm_set_%s=" % kind):
                f = v.split(",")
                if len(f) != 4 or f[2] not in ["_ALL_", "UVM_FATAL"] + SEVS or not ok(f[3]):
                    self.bad.append(v)
                else:
                    keep.append(f)
                    if not any(glob(f[0], n) for n in names):
                        self.idle.append(v)
        first = values(args, "+UVM_VERBOSITY=")[:1]
        self.level = 200
        if first:
            v = verb_of(first[0])
            self.level = v if v is not None else int(first[0]) if first[0].isdigit() and int(first[0]) else 200

    def created(self, comp):
        """the level a component has once it is constructed: its parent's, unless set"""
        level = self.created(comp.rpartition(".")[0]) if comp else self.level
        for pat, sid, verb, ph, off in self.verb:
            if comp and sid == "_ALL_" and ph in ("", "build") and off == 0 and glob(pat, comp):
                level = verb
        return level

    def verbosity(self, comp, ident, point):
        """the level in force: settings made at construction, then those of phases and times gone by"""
        now = PHASES.index(point)
        order = []
        for n, (pat, sid, verb, ph, off) in enumerate(self.verb):
            if not glob(pat, comp):
                continue
            if ph in ("", "build") and off == 0:
                when = (0, 0, n)
            elif ph == "time":
                when = (PHASES.index("t5"), off, n) if off < 5 else (3, off, n)
            elif ph == "run":
                when = (3, off, n)
            elif ph == "connect" and off:
                when = (3, off, n)
            else:
                when = (PHASES.index(ph), 0, n)
            t = TIMES[now - 3] if 3 <= now < 3 + len(TIMES) else 10 ** 6 if now >= 3 + len(TIMES) else -1
            if when[0] == 3:
                if t >= when[1]:
                    order.append(((3, when[1], n), sid, verb))
            elif when[0] <= now:
                order.append((when, sid, verb))
        level, by_id = self.created(comp), None
        for _, sid, verb in sorted(order):
            if sid == "_ALL_":
                level = verb
            elif sid == ident:
                by_id = verb
        return level if by_id is None else by_id

    def outcome(self, e):
        """(severities displayed, counted) of a report; a log without a file goes to the display, counting needs a limit"""
        if VERBS[e["verb"]] > self.verbosity(e["comp"], e["id"], e["where"]):
            return [], 0
        by_id = by_sev = any_id = None
        for pat, sid, old, new in self.sev:
            any_id = any_id or glob(pat, e["comp"]) and sid == e["id"]
            if glob(pat, e["comp"]) and old in ("_ALL_", e["sev"]):
                if sid == "_ALL_":
                    by_sev = new
                elif sid == e["id"]:
                    by_id = new
        sev = by_id or (by_sev if not any_id else None) or e["sev"]
        act = {"UVM_INFO": "UVM_DISPLAY", "UVM_WARNING": "UVM_DISPLAY", "UVM_ERROR": "UVM_DISPLAY|UVM_COUNT"}[sev]
        ident = both = None
        for pat, sid, old, new in self.action:
            if glob(pat, e["comp"]) and old in ("_ALL_", sev):
                if sid == "_ALL_":
                    act = new
                elif sid == e["id"] and old == "_ALL_":
                    ident = new
                elif sid == e["id"]:
                    both = new
        act = (both or ident or act).split("|")
        limit = any(values(self.args, "+UVM_MAX_QUIT_COUNT=")) or e["where"][0] == "t" or e["where"] == "extract"
        return [sev] * (("UVM_DISPLAY" in act) + ("UVM_LOG" in act)), int("UVM_COUNT" in act and limit)

    def made(self, path):
        for a in self.args:
            m = re.match(r"\+(UVM_SET_INST_OVERRIDE|uvm_set_inst_override)=VpDrv,(\w+),(.*)$", a)
            if m and glob(m.group(3), path):
                return m.group(2)
        res = "VpDrv"
        for a in self.args:
            m = re.match(r"\+(UVM_SET_TYPE_OVERRIDE|uvm_set_type_override)=VpDrv,(\w+?)(,[01])?$", a)
            if m and (res == "VpDrv" or m.group(3) != ",0"):
                res = m.group(2)
        return res

    def config(self, path):
        got = {}
        for a in self.args:
            m = re.match(r"\+uvm_set_config_(int|string)=([^,]*),([^,]*),([^,]*)$", a)
            if m and glob(m.group(2), path):
                v = m.group(4)
                if m.group(1) == "int":
                    base = {"'b": 2, "0b": 2, "'o": 8, "'d": 10, "'h": 16, "'x": 16, "0x": 16}.get(v[:2])
                    v = int(v[2:], base) if base else int(v)
                got[m.group(3)] = v
        return got


def simulate(case):
    from vp import runner
    work = os.getcwd()
    top = os.path.join(work, "cmd_top.vvp")
    if not os.path.exists(top):
        subprocess.run(["iverilog", "-g2012", "-s", "vp_top", "-o", "%s.%d" % (top, os.getpid()), os.path.join(runner.HOME, "vp", "simtop.sv")], check=True)
        os.rename("%s.%d" % (top, os.getpid()), top)
    tmp = tempfile.mkdtemp(prefix="c36-", dir=work)
    try:
        with open(os.path.join(tmp, "case.json"), "w") as f:
            json.dump(case, f)
        env = {k: v for k, v in os.environ.items() if k not in ("VP_SPEC", )}
        env.update({"LIBPYTHON_LOC": runner.libpython(), "TOPLEVEL": "vp_top", "TOPLEVEL_LANG": "verilog", "MODULE": "vp.cmdline_child", "PYGPI_PYTHON_BIN": runner.PY,
                    "COCOTB_RESULTS_FILE": os.path.join(tmp, "results.xml"), "VP_CASE": os.path.join(tmp, "case.json"), "VP_RESULT": os.path.join(tmp, "out.json")})
        r = subprocess.run(["vvp", "-M", runner.COCOTB, "-m", "libcocotbvpi_icarus", top] + case["args"], cwd=tmp, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=120)
        try:
            with open(os.path.join(tmp, "out.json")) as f:
                return json.load(f), r.stdout
        except (OSError, ValueError):
            return None, r.stdout
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(case, mon):
    if case.get("probe"):
        case = dict(gen(random.Random(1), "quick"), args=["+foo=1", "+fo=2"], lookups=[["matches", "/foo/"]])
    args = case["args"]
    log, out = simulate(case)
    if log is None:
        raise RuntimeError("the simulation left no record: " + out[-1500:])
    if not mon.check(log["done"], "not-done", "the test ran to its end", error=log.get("error"), reports=[r[2][:200] for r in log["reports"] if r[0] in ("UVM_FATAL", "UVM_ERROR")][:5]):
        return
    m = Model(args, case["names"])
    mon.event("args", str(sorted(args)))

    # lookups
    seen = [a for a in log["args"] if a in args]
    mon.equal(log["args"][-len(args):] if args else [], args, "args", "every argument in order")
    mon.equal(log["plus"], [a for a in log["args"] if a[0] == "+"], "plusargs", "the plus arguments")
    mon.equal(log["uvm"], [a for a in log["args"] if a[1:4].upper() == "UVM"], "uvmargs", "the arguments for UVM")
    mon.check(len(seen) >= len(args), "args", "every argument is listed")
    for (kind, what), (n, got) in zip(case["lookups"], log["lookups"]):
        if kind == "matches" and what[0] == what[-1] == "/" and len(what) > 2:
            want = [a for a in log["args"] if re.search(what[1:-1], a)]
            mon.count("regex_hits" if want else "regex_misses")
            if got != want and got == [a for a in log["args"] if re.search(what[1:-2], a)] and n == len(got):
                mon.findings["regex-last-char"] = "the arguments matching %s are searched for without the last character of the expression" % what
                continue
        else:
            want = [a for a in log["args"] if a.startswith(what)]
            mon.count("prefix_hits" if want else "prefix_misses")
            if kind != "matches":
                want = [a[len(what):] for a in want]
        count = len(want)
        if kind == "value":
            want = want[:1]
        mon.equal((n, got), (count, want), "lookup-" + kind, "arguments found", what=what)

    # reports
    changed = same = 0
    if mon.equal(sorted(x[0] for x in log["emits"]), list(range(len(case["emits"]))), "emitted", "every report was made"):
        for n, got, counted, _ in log["emits"]:
            e = case["emits"][n]
            sev, cnt = m.outcome(e)
            mon.equal([tuple(g) for g in got], [(s, e["id"]) for s in sev], "report", "what a report displays under the settings in force", report=e, args=args)
            mon.equal(counted, cnt, "count", "whether a report is counted under the settings in force", report=e, args=args)
            base = Model([], case["names"]).outcome(e)
            changed += base != (sev, cnt)
            same += base == (sev, cnt)
            if base != (sev, cnt):
                mon.count("changed_" + ("late" if e["where"][0] == "t" or e["where"] == "extract" else "early"))
    mon.nontrivial = bool(changed and same)

    # reports about the settings
    inv = [r[2] for r in log["reports"] if r[1] in ("INVLCMDARGS", "INVLCMDVERB")]
    for v in m.bad:
        mon.count("bad_args")
        mon.check(any(v in line for line in inv), "bad-arg", "a setting that cannot be understood is reported", setting=v, args=args)
    for v in m.idle:
        mon.count("idle_args")
        mon.check(any(v in line and "never" in line for line in inv), "idle-arg", "a setting that matches no component is reported", setting=v, args=args)
    for v in set(values(args, "+uvm_set_verbosity=") + values(args, "+uvm_set_action=") + values(args, "+uvm_set_severity=")) - set(m.bad) - set(m.idle):
        mon.count("good_args")
        mon.check(not any(("=" + v + '"') in line or ("=" + v + " ") in line or ("'" + v + "'") in line or line.endswith(v) for line in inv), "good-arg", "a good setting is not complained about",
                  setting=v, args=args, lines=inv)

    # created types, configuration, test
    test = (values(args, "+UVM_TESTNAME=") + ["VpCmdTestA"])[0]
    made = {n: m.made(n) for n in case["names"][1:]}
    made["uvm_test_top"] = test
    mon.equal(log["made"], made, "made", "the types created", args=args)
    mon.count("overridden", sum(v not in ("VpDrv", "VpCmdTestA") for v in made.values()))
    mon.equal(log["config"], {n: m.config(n) for n in case["names"]}, "config", "configuration set on the command line", args=args)
    mon.count("configured", sum(map(len, log["config"].values())))

    # limits
    for what, prefix, none, later in (("timeout", "+UVM_TIMEOUT=", 9200, 777), ("quit", "+UVM_MAX_QUIT_COUNT=", 0, 5555)):
        v = values(args, prefix)
        if v:
            mon.count(what)
            num, _, over = v[0].partition(",")
            mon.equal(log[what], [int(num), int(num) if over == "NO" else later], what, "the limit set, and whether the test can still change it", args=args)
        else:
            mon.equal(log[what][1], later, what, "the test can set the limit", args=args)
            if what == "quit":
                mon.equal(log[what][0], none, what, "no limit unless asked for", args=args)
    dump = [r[2] for r in log["reports"] if r[1] == "DUMPARGS"]
    mon.equal(len(dump), int("+UVM_DUMP_CMDLINE_ARGS" in args), "dump", "the command line is listed when asked for")
    if dump:
        mon.count("dumps")
        mon.check(all(a in dump[0] for a in args), "dump-args", "the listing has every argument", args=args, listing=dump[0])
