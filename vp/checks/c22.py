"""C22: the report server's counts, quit count and summary, and the report catchers, against a model.

Reporters with random settings issue reports while catchers with random rules (look, change, catch, issue, report on their
own) are registered for objects and for all, enabled and disabled, and the server's counts are set and reset. What each
catcher sees, what is displayed, all counts, the summaries and the end of the run are compared with a model."""
import itertools
import re

from vp.checks.c21 import Model, INFO, WARNING, ERROR, FATAL, SEVS, IDS, DISPLAY, LOG, COUNT, EXIT

SIM = False
BATCH = 25
CASES = {"quick": 4800, "thorough": 60000}
TECHNIQUE = "runtime monitoring: calls of the catchers, displayed reports, counts and summaries of random histories checked against a model"
LEVEL_NOTE = "Random histories on the real report server, handlers and catchers; exploration, no claim beyond what ran."
RULE = ("2-6 reporters, up to 5 catchers, 15-50 steps; non-trivial: a report was executed and a catcher called; distinct: hash of the reports shown and "
        "the calls of catchers")
REQUIRE = {"reports": 20000, "executed": 10000, "catch_calls": 10000, "caught": 1000, "severity_changed": 500, "issued": 400, "said": 400,
           "unknown_return": 250, "quit_reached": 200, "not_overridable": 100, "summaries": 1500, "counts_checked": 20000, "typewide": 1200,
           "prepended": 1000, "disabled_skipped": 400, "orig_restored": 300, "not_caught": 100, "exits": 500, "duplicates": 300, "logged": 500}
ASSUMPTIONS = []
_ids = itertools.count()
RULES = 3


def gen(rng, tier):
    from vp.uvmrun import random_tree
    steps = []
    ncatch = rng.randint(1, 5)
    focus = [rng.randint(0, 7) for _ in range(2)]
    loud = rng.random() < .3

    def who():
        return rng.choice(focus) if rng.random() < .7 else rng.randint(0, 7)

    def ops():
        res = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            res.append(rng.choice([["sev", rng.randint(0, 3)], ["sev", rng.randint(0, 3)], ["sev", rng.randint(0, 2)], ["id", rng.choice(IDS + ["new"])],
                                   ["msg", rng.choice(["+", " changed"])], ["act", rng.choice([0, DISPLAY, DISPLAY, COUNT, LOG, DISPLAY | COUNT])],
                                   ["verb", rng.choice([0, 200, 500])], ["ctx", "ctx2"], ["issue"],
                                   ["say", rng.randint(0, 2), rng.choice(IDS), rng.choice([0, 100, 300])], ["mode", rng.randrange(ncatch), rng.randint(0, 1)]]))
        return res
    catchers = []
    for k in range(ncatch):
        rules = [[rng.choice([None, 0, 1, 2, 2, 3]), rng.choice([None, None] + IDS), ops(), rng.choice(["T", "T", "T", "C", "C", "U"])]
                 for _ in range(rng.randint(1, RULES))]
        catchers.append(rules)
    for k in range(rng.randint(15, 40 if tier == "quick" else 60)):
        r = rng.random()
        if k < 2 or r < .12:
            steps.append(["add", None if rng.random() < .45 else who(), rng.randrange(ncatch), rng.random() < .35])
        elif k < 4 or r < .16:
            steps.append(["max", rng.choice([0, 0, 1, 3, 3, 5, 8, -1]), rng.random() < .85])
        elif r < .20:
            steps.append(["mode", rng.randrange(ncatch), rng.randint(0, 1)])
        elif r < .30:
            steps.append(["set", who(), rng.choice(["verb", "sevact", "idact", "ov", "idov", "sevfile", "idfile"]), rng.randint(0, 3), rng.choice(IDS),
                          rng.choice([0, 100, 200, 500]), rng.choice([0, DISPLAY, DISPLAY, DISPLAY | COUNT, DISPLAY | COUNT, LOG, COUNT, DISPLAY | LOG]), rng.randint(0, 3)])
        elif r < .36:
            steps.append(["server", rng.choice(["reset_quit", "reset_sev", "set_quit", "set_sev", "set_id"]), rng.randint(-1, 6), rng.randint(0, 3), rng.choice(IDS)])
        elif r < .42:
            steps.append(["summary", rng.random() < .8])
        elif r < .44:
            steps.append(["list"])
        elif r < .46:
            steps.append(["debug", rng.choice([0, 0, 1, 2, 3])])
        else:
            steps.append(["report", who(), rng.choice([INFO, WARNING, WARNING, ERROR, ERROR, FATAL]), rng.choice(IDS), rng.choice([0, 0, 100, 200, 300])])
    return {"tree": random_tree(rng, 4, ["a", "b", "c"]), "plain": rng.randint(0, 1), "fatal": rng.choice([None, DISPLAY, DISPLAY, DISPLAY | COUNT]) if not loud else None,
            "log": rng.random() < .35, "catchers": catchers, "steps": steps}


def setup():
    import uvm  # noqa
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    with Output():
        UVMCoreService.get().get_root()


def clean(root, srv):
    from uvm.base.uvm_callback import UVMCallbacks, UVMTypedCallbacks
    from uvm.base.uvm_report_catcher import UVMReportCatcher as RC, UVMReportCb
    root.reset_report_handler()
    RC.in_catcher = 0
    RC.do_report = False
    RC.m_demoted_fatal = RC.m_demoted_error = RC.m_demoted_warning = RC.m_caught_fatal = RC.m_caught_error = RC.m_caught_warning = 0
    RC.debug_report_catcher(0)
    UVMReportCb.get()
    del UVMTypedCallbacks.m_t_inst.m_tw_cb_q[:]
    UVMCallbacks.get()
    for cls in (UVMCallbacks, UVMReportCb):
        cls.m_base_inst.m_pool.delete()
    srv.max_quit_overridable = True
    srv.set_max_quit_count(0)
    srv.reset_quit_count()
    srv.reset_severity_counts()
    q = []
    srv.get_id_set(q)
    srv.m_id_count.delete()
    srv.enable_report_id_count_summary = True


def run(case, mon):
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_callback import UVMCallbacksBase
    from vp.monitor import Output
    cs = UVMCoreService.get()
    root, srv = cs.get_root(), cs.get_report_server()
    logger = srv.logger
    UVMCallbacksBase.m_tracing = False
    with Output():
        clean(root, srv)
        try:
            Case(case, mon, root, srv).go()
        finally:
            srv.set_logger(logger)
            clean(root, srv)
    c = mon.counters
    mon.nontrivial = c.get("executed", 0) > 0 and c.get("catch_calls", 0) > 0


class Exit(Exception):
    pass


class Case:
    def __init__(self, case, mon, root, srv):
        self.case, self.mon, self.root, self.srv = case, mon, root, srv
        self.shown, self.calls = [], []                 # observed
        self.xshown, self.xcalls = [], []               # expected
        self.typewide, self.own = [], {}
        self.max, self.over, self.quit = 0, True, 0
        self.sevs, self.idcount = [0] * 4, {}
        self.demoted, self.ncaught = {1: 0, 2: 0, 3: 0}, {1: 0, 2: 0, 3: 0}
        self.in_catcher = False
        self.flags = 0
        self.ids_in_summary = True

    # ---- the real thing ------------------------------------------------------------------------
    def go(self):
        import uvm.base.uvm_report_catcher as rc
        from uvm.base.uvm_component import UVMComponent
        from uvm.base.uvm_report_object import UVMReportObject
        from uvm.base.uvm_exceptions import UVMFinishError
        case, me = self.case, self

        class Catcher(rc.UVMReportCatcher):
            def __init__(self, k, rules):
                super().__init__(f"c{k}")
                self.k, self.rules = k, rules

            def catch(self):
                me.calls.append([self.k, self.get_severity(), self.get_id(), self.get_verbosity(), self.get_action(), self.get_context(),
                                 me.names.get(id(self.get_client())), norm(self.get_message())])
                if not self.get_id().startswith(("UVM/", "NOMAX")):
                    me.calls[-1] += [self.get_fname(), self.get_line()]
                rule = pick(self.rules, self.get_severity(), self.get_id())
                if rule is None:
                    return rc.THROW
                for op in rule[2]:
                    if op[0] == "sev":
                        self.set_severity(op[1])
                    elif op[0] == "id":
                        self.set_id(op[1])
                    elif op[0] == "msg":
                        self.set_message(self.get_message() + op[1])
                    elif op[0] == "act":
                        self.set_action(op[1])
                    elif op[0] == "verb":
                        self.set_verbosity(op[1])
                    elif op[0] == "ctx":
                        self.set_context(op[1])
                    elif op[0] == "issue":
                        self.issue()
                    elif op[0] == "say":
                        f = [self.uvm_report_info, self.uvm_report_warning, self.uvm_report_error][op[1]]
                        f(op[2], f"c{self.k} says", op[3])
                    elif op[0] == "mode":
                        me.catchers[op[1]].callback_mode(op[2])
                return {"T": rc.THROW, "C": rc.CAUGHT, "U": rc.UNKNOWN_ACTION}[rule[3]]

        comps = [UVMComponent(f"top{next(_ids)}", None)]
        for p, n in case["tree"]:
            comps.append(UVMComponent(n, comps[p]))
        self.objs = [self.root] + comps + [UVMReportObject(f"obj{i}") for i in range(case["plain"])]
        self.models = {id(o): Model(o.get_report_handler().get_full_name() if o is self.root else o.get_full_name()) for o in self.objs}
        self.names = {id(o): n for n, o in enumerate(self.objs)}
        if case["fatal"] is not None:
            for o in self.objs:
                o.set_report_severity_action(FATAL, case["fatal"])
                self.models[id(o)].sevact[FATAL] = case["fatal"]
        self.srv.set_logger(lambda t: self.shown.append((0, t)))
        self.files = [0, File(1, self.shown), File(2, self.shown)]
        if case["log"]:
            for k, o in enumerate(self.objs[1:]):
                m = self.models[id(o)]
                for sev in (INFO, WARNING, ERROR):
                    a, f = DISPLAY | LOG | (COUNT if sev == ERROR else 0), (k + sev) % 3
                    o.set_report_severity_action(sev, a)
                    o.set_report_severity_file(sev, self.files[f])
                    m.sevact[sev], m.sevfile[sev] = a, f
        self.catchers = [Catcher(k, r) for k, r in enumerate(case["catchers"])]
        self.enabled = [True] * len(self.catchers)
        self.SERVER = "UVM/REPORT/SERVER"
        for i, st in enumerate(case["steps"]):
            del self.shown[:], self.calls[:], self.xshown[:], self.xcalls[:]
            ended = xended = False
            try:
                getattr(self, "do_" + st[0])(i, *st[1:])
            except UVMFinishError:
                ended = True
            try:
                getattr(self, "x_" + st[0])(i, *st[1:])
            except Exit:
                xended = True
            self.mon.count("steps")
            self.compare(i, st, ended, xended)
            if ended or xended:
                self.mon.count("exits")
                break

    def do_report(self, i, k, sev, id_, verb):
        o = self.objs[k % len(self.objs)]
        [o.uvm_report_info, o.uvm_report_warning, o.uvm_report_error, o.uvm_report_fatal][sev](id_, f"m{i}", verb, "f.py", i)

    def do_add(self, i, k, c, prepend):
        from uvm.base.uvm_report_catcher import UVMReportCb
        from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
        UVMReportCb.add(None if k is None else self.objs[k % len(self.objs)], self.catchers[c], UVM_PREPEND if prepend else UVM_APPEND)

    def do_mode(self, i, c, on):
        self.catchers[c].callback_mode(on)

    def do_max(self, i, n, overridable):
        self.srv.set_max_quit_count(n, overridable)

    def do_set(self, i, k, what, sev, id_, v, a, s):
        o = self.objs[k % len(self.objs)]
        if o is self.root and what in ("sevact", "ov"):      # the summary's reports come from the root
            return
        f = self.files[a % 3]
        {"sevfile": lambda: o.set_report_severity_file(sev, f), "idfile": lambda: o.set_report_id_file(id_, f),
         "verb": lambda: o.set_report_verbosity_level(v), "sevact": lambda: o.set_report_severity_action(sev, a), "idact": lambda: o.set_report_id_action(id_, a),
         "ov": lambda: o.set_report_severity_override(sev, s), "idov": lambda: o.set_report_severity_id_override(sev, id_, s)}[what]()

    def do_server(self, i, what, n, sev, id_):
        s = self.srv
        {"reset_quit": s.reset_quit_count, "reset_sev": s.reset_severity_counts, "set_quit": lambda: s.set_quit_count(n),
         "set_sev": lambda: s.set_severity_count(sev, n), "set_id": lambda: s.set_id_count(id_, n)}[what]()

    def do_summary(self, i, ids):
        self.srv.enable_report_id_count_summary = ids
        self.srv.report_summarize()

    def do_list(self, i):
        from uvm.base.uvm_report_catcher import UVMReportCatcher
        UVMReportCatcher.print_catcher()
        for k, c in enumerate(self.catchers):
            self.mon.check(UVMReportCatcher.get_report_catcher(f"c{k}") is (c if k in self.typewide else None), "get_report_catcher")
        self.mon.equal(UVMReportCatcher.get_report_catcher("none"), None, "get_report_catcher of an unknown name")

    def do_debug(self, i, flags):
        from uvm.base.uvm_report_catcher import UVMReportCatcher
        UVMReportCatcher.debug_report_catcher(flags)

    # ---- the model -----------------------------------------------------------------------------
    def x_report(self, i, k, sev, id_, verb):
        self.mon.count("reports")
        self.report(self.objs[k % len(self.objs)], sev, id_, f"m{i}", verb, "f.py", i)

    def x_add(self, i, k, c, prepend):
        def put(q):
            if c in q:
                return False
            q.insert(0 if prepend else len(q), c)
            return True
        if k is None:
            new = put(self.typewide)
            if new:
                for q in self.own.values():
                    put(q)
                self.mon.count("typewide")
        else:
            o = self.objs[k % len(self.objs)]
            new = put(self.own.setdefault(id(o), list(self.typewide)))
        self.mon.count("prepended", new and prepend)
        if not new:
            self.mon.count("duplicates")
            self.report(self.root, WARNING, "CBPREG", None, 0)

    def x_mode(self, i, c, on):
        self.enabled[c] = bool(on)

    def x_max(self, i, n, overridable):
        if not self.over:
            self.mon.count("not_overridable")
            self.report(self.root, INFO, "NOMAXQUITOVR", None, 0)
            return
        self.over, self.max = overridable, max(n, 0)

    def x_set(self, i, k, what, sev, id_, v, a, s):
        o = self.objs[k % len(self.objs)]
        m = self.models[id(o)]
        if o is self.root and what in ("sevact", "ov"):
            return
        if what == "verb":
            m.verb = v
        elif what == "sevact":
            m.sevact[sev] = a
        elif what == "idact":
            m.idact[id_] = a
        elif what == "ov":
            m.ov[sev] = s
        elif what == "sevfile":
            m.sevfile[sev] = a % 3
        elif what == "idfile":
            m.idfile[id_] = a % 3
        else:
            m.idov.setdefault(id_, {})[sev] = s

    def x_server(self, i, what, n, sev, id_):
        if what == "reset_quit":
            self.quit = 0
        elif what == "reset_sev":
            self.sevs = [0] * 4
        elif what == "set_quit":
            self.quit = max(n, 0)
        elif what == "set_sev":
            self.sevs[sev] = max(n, 0)
        else:
            self.idcount[id_] = max(n, 0)

    def x_summary(self, i, ids):
        self.ids_in_summary = ids
        self.summary()

    def x_list(self, i):
        self.report(self.root, INFO, "UVM/REPORT/CATCHER", "-------------UVM REPORT CATCHERS----------------------------\n"
                    + "".join("%20s : %s\n" % (f"c{k}", "ON" if self.enabled[k] else "OFF") for k in self.typewide)
                    + "--------------------------------------------------------------\n", 100)

    def x_debug(self, i, flags):
        self.flags = flags

    def summary(self):
        self.mon.count("summaries")
        d, c = self.demoted, self.ncaught
        self.report(self.root, INFO, "UVM/REPORT/CATCHER", "\n--- UVM Report catcher Summary ---\n\n\n"
                    + f"Number of demoted UVM_FATAL reports  :{d[3]}\nNumber of demoted UVM_ERROR reports  :{d[2]}\nNumber of demoted UVM_WARNING reports:{d[1]}\n"
                    + f"Number of caught UVM_FATAL reports   :{c[3]}\nNumber of caught UVM_ERROR reports   :{c[2]}\nNumber of caught UVM_WARNING reports :{c[1]}\n", 100)
        text = "\n--- UVM Report Summary ---\n\n"
        if self.max:
            text += "Quit count reached!\n" if self.quit >= self.max else ""
            text += f"Quit count : {self.quit} of {self.max}\n"
        text += "** Report counts by severity\n" + "".join(f"{s} : {n}\n" for s, n in zip(SEVS, self.sevs))
        if self.ids_in_summary:
            text += "** Report counts by id\n" + "".join(f"[{k}] {n}\n" for k, n in self.idcount.items())
        self.report(self.root, INFO, self.SERVER, text, 100)

    def report(self, o, sev, id_, text, verb, fname=None, line=None):
        m = self.models[id(o)]
        if m.limit(sev, id_) < verb:
            return
        sev = m.severity(sev, id_)
        msg = dict(o=o, sev=sev, id=id_, text=text, verb=verb, act=m.action(sev, id_), ctx="", fname=fname, line=line, file=m.get_file(sev, id_))
        if self.catch(msg) and msg["act"] != 0:
            self.execute(msg)

    def execute(self, m):
        self.mon.count("executed")
        self.sevs[m["sev"]] += 1
        self.idcount[m["id"]] = self.idcount.get(m["id"], 0) + 1
        name = self.models[id(m["o"])].name + ("@@" + m["ctx"] if m["ctx"] else "")
        for bit in (DISPLAY, LOG):
            if m["act"] & bit:
                n = m["file"] if bit == LOG else 0
                self.mon.count("logged", n != 0)
                self.xshown.append([n, SEVS[m["sev"]], name, m["id"], norm(m["text"])])
        if m["act"] & COUNT and self.max:
            self.quit += 1
            if self.quit >= self.max:
                self.mon.count("quit_reached")
                m["act"] |= EXIT
        if m["act"] & EXIT:
            self.summary()
            raise Exit

    def catch(self, msg):
        if self.in_catcher:
            return True
        self.in_catcher = True
        o, m = msg["o"], self.models[id(msg["o"])]
        orig, orig_sev = dict(msg), msg["sev"]
        thrown = True
        for c in self.own.get(id(o), self.typewide):
            if not self.enabled[c]:
                self.mon.count("disabled_skipped")
                continue
            self.mon.count("catch_calls")
            prev = msg["sev"]
            x = [c, prev, msg["id"], msg["verb"], msg["act"], msg["ctx"] or m.name, self.names[id(o)], norm(msg["text"])]
            if not msg["id"].startswith(("UVM/", "NOMAX")):
                x += [msg["fname"], msg["line"]]
            self.xcalls.append(x)
            rule = pick(self.case["catchers"][c], msg["sev"], msg["id"])
            acted, ret = False, "T"
            if rule is not None:
                ret = rule[3]
                for op in rule[2]:
                    if op[0] in ("sev", "id", "act", "verb", "ctx"):
                        msg[op[0]] = op[1]
                        acted |= op[0] == "act"
                    elif op[0] == "msg":
                        msg["text"] = msg["text"] if msg["text"] is None else msg["text"] + op[1]
                    elif op[0] == "issue":
                        if msg["act"]:
                            self.mon.count("issued")
                            self.execute(msg)
                    elif op[0] == "mode":
                        self.enabled[op[1]] = bool(op[2])
                    else:
                        self.mon.count("said")
                        self.say(msg, op[1], op[2], f"c{c} says", op[3] if op[1] == 0 else 0)
            if ret == "U":
                self.mon.count("unknown_return")
                self.say(msg, ERROR, "RPTCTHR", None, 0)
            if self.flags & 2:
                self.mon.count("orig_restored", msg != orig)
                msg.update(orig)
            if not acted and msg["sev"] != prev:
                self.mon.count("severity_changed")
                if msg["act"] == m.action(prev, "*@&*^*^*#"):
                    msg["act"] = m.action(msg["sev"], "*@&*^*^*#")
            if ret == "C":
                if self.flags & 1:
                    self.mon.count("not_caught")
                else:
                    self.mon.count("caught")
                    thrown = False
                    if orig_sev:
                        self.ncaught[orig_sev] += 1
                    break
        if msg["sev"] < orig_sev:
            self.demoted[orig_sev] += 1
        self.in_catcher = False
        return thrown

    def say(self, msg, sev, id_, text, verb):
        if self.models[id(self.root)].limit(sev, id_) < verb:
            return
        m = self.models[id(msg["o"])]
        act = m.action(sev, id_)
        if act:
            self.execute(dict(o=msg["o"], sev=sev, id=id_, text=text, verb=verb, act=act, ctx="", file=m.get_file(sev, id_)))

    # ---- the comparison ------------------------------------------------------------------------
    def compare(self, i, st, ended, xended):
        mon, s = self.mon, self.srv
        w = dict(step=st, at=i, shown=self.shown[:6], calls=self.calls[:6])
        calls = [c if x[7] is not None else c[:7] + [None] for c, x in zip(self.calls, self.xcalls)]
        xcalls = [x if x[7] is not None else x[:8] for x in self.xcalls]
        mon.check(len(self.calls) == len(self.xcalls) and all(c == x for c, x in zip(calls, xcalls)), "calls of the catchers and what they see",
                  got=self.calls[:8], want=self.xcalls[:8], **w)
        got = []
        for n, t in self.shown:
            g = re.match(r"(UVM_\w+) (?:\S+\(\d+\) )?@ [\d.]+NS: (\S+) \[(\S+)\] (.*)$", t, re.S)
            if mon.check(g, "form of a displayed report", text=t):
                got.append([n, g[1], g[2], g[3], norm(g[4])])
        ok = len(got) == len(self.xshown) and all(a[:4] == b[:4] and (b[4] is None or a[4] == b[4]) for a, b in zip(got, self.xshown))
        mon.check(ok, "displayed reports", got=got[:8], want=self.xshown[:8], **w)
        mon.event(st[0], got, [c[:3] for c in self.calls], s.get_quit_count())
        mon.check(ended == xended, "the run is ended", got=ended, want=xended, quit=[self.quit, self.max], **w)
        mon.count("counts_checked")
        mon.equal([s.get_severity_count(x) for x in range(4)], self.sevs, "counts per severity")
        q = []
        s.get_id_set(q)
        mon.equal({k: s.get_id_count(k) for k in q}, self.idcount, "counts per id")
        mon.equal(s.get_id_count("never used"), 0, "count of an id never used")
        mon.equal([s.get_quit_count(), s.get_max_quit_count()], [self.quit, self.max], "quit count and its maximum")
        mon.equal(bool(s.is_quit_count_reached()), self.quit >= self.max, "is_quit_count_reached")


class File:
    closed = False

    def __init__(self, n, shown):
        self.n, self.shown = n, shown

    def write(self, text):
        self.shown.append((self.n, text[:-1] if text.endswith("\n") else text))


def norm(text):
    """The order of the ids in the summary is not specified"""
    return text if text is None or "Summary" not in text else "\n".join(sorted(text.split("\n")))


def pick(rules, sev, id_):
    if id_.startswith(("UVM/", "NOMAX")):
        return None
    for r in rules:
        if r[0] in (None, sev) and r[1] in (None, id_):
            return r
    return None
