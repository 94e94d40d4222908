"""C21: which reports are displayed, logged and acted on, against a model of every reporter's settings.

Each case builds a component tree, plain report objects and the root, changes verbosities, actions, files and
severity overrides (also for hierarchies, with components created in between), and issues reports through the methods, the
macros, the context macros and the global functions. What reaches the logger, the files and the message
database is compared with a model of the settings of each reporter."""
import inspect
import io
import itertools
import re

SIM = False
BATCH = 25
CASES = {"quick": 4800, "thorough": 60000}
TECHNIQUE = "runtime monitoring: displayed, logged and recorded messages of random reporters and settings checked against a model of the settings"
LEVEL_NOTE = "Random setting and report histories on the real report objects, handlers and server; exploration, no claim beyond what ran."
RULE = ("2-8 reporters, 15-60 steps of changing settings and reporting; non-trivial: at least one report shown and one suppressed; distinct: hash "
        "of the messages shown")
REQUIRE = {"reports": 15000, "shown": 9000, "suppressed_verbosity": 1500, "suppressed_action": 450, "macro_reports": 3500, "overridden": 900,
           "file_writes": 750, "hier_settings": 1500, "exits": 300, "stops": 100, "recorded": 800, "getters": 5000, "resets": 300,
           "late_components": 500, "shared_handlers": 200}
ASSUMPTIONS = []
_ids = itertools.count()

INFO, WARNING, ERROR, FATAL = range(4)
SEVS = ["UVM_INFO", "UVM_WARNING", "UVM_ERROR", "UVM_FATAL"]
VERBS = [0, 100, 200, 300, 400, 500, 150]
IDS = ["A", "B", "A.B"]
NO, DISPLAY, LOG, COUNT, EXIT, HOOK, STOP, REC = 0, 1, 2, 4, 8, 16, 32, 64
ACTIONS = [NO, NO, DISPLAY | LOG | REC, LOG | REC, DISPLAY, DISPLAY, DISPLAY | LOG, LOG, LOG, COUNT, DISPLAY | COUNT, DISPLAY | EXIT, REC, DISPLAY | REC, DISPLAY | STOP, LOG | COUNT]


def gen(rng, tier):
    from vp.uvmrun import random_tree
    n = 40 if tier == "quick" else 60
    tree = random_tree(rng, 6, ["a", "b", "c", "d"])
    steps = []
    focus = [rng.randint(0, 9) for _ in range(rng.choice([1, 1, 2]))]
    for k in range(rng.randint(15, n)):
        r = rng.random() * (1 if k > 8 else .48) + (0 if k > 8 else .52)
        who = rng.choice(focus) if rng.random() < .8 else rng.randint(0, 9)
        if r < .48:
            steps.append(["report", who, rng.choice(["method", "macro", "macro", "context", "plain", "uvm_report"]),
                          rng.choice([INFO, INFO, WARNING, ERROR, FATAL]) if rng.random() < .95 else FATAL, rng.choice(IDS), rng.choice(VERBS + [None])])
        elif r < .50:
            steps.append(["component", who, rng.choice(["x", "y", "z", "w"])])
        elif r < .51:
            steps.append(["reset", who])
        elif r < .52:
            steps.append(["share", who, rng.randint(0, 9)])
        else:
            what = rng.choice(["verb", "verb", "idverb", "sidverb", "sevact", "sevact", "idact", "sidact", "ov", "idov", "file", "file", "sevfile", "idfile", "sidfile"])
            steps.append(["set", who, what, rng.random() < .35, rng.choice([INFO, INFO, WARNING, ERROR, FATAL]), rng.choice(IDS),
                          {"v": rng.choice(VERBS), "a": rng.choice(ACTIONS), "f": rng.randint(0, 2), "s": rng.randint(0, 3)}])
    return {"tree": tree, "plain": rng.randint(0, 2), "steps": steps, "show_verbosity": rng.random() < .2, "show_terminator": rng.random() < .2,
            "record_all": rng.random() < .1}


def setup():
    import uvm  # noqa
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    with Output():
        UVMCoreService.get().get_root()


class Model:
    """The settings of a report handler"""

    def __init__(self, name):
        self.name = name
        self.reset()

    def reset(self):
        self.verb, self.idverb, self.sidverb = 200, {}, {}
        self.sevact = {INFO: DISPLAY, WARNING: DISPLAY, ERROR: DISPLAY | COUNT, FATAL: DISPLAY | EXIT}
        self.idact, self.sidact, self.ov, self.idov = {}, {}, {}, {}
        self.file, self.sevfile, self.idfile, self.sidfile = 0, {}, {}, {}

    def limit(self, sev, id):
        return self.sidverb.get((sev, id), self.idverb.get(id, self.verb))

    def severity(self, sev, id):
        if id in self.idov:
            return self.idov[id].get(sev, sev)
        return self.ov.get(sev, sev)

    def action(self, sev, id):
        return self.sidact.get((sev, id), self.idact.get(id, self.sevact[sev]))

    def get_file(self, sev, id):
        for f in (self.sidfile.get((sev, id), 0), self.idfile.get(id, 0), self.sevfile.get(sev, 0)):
            if f != 0:
                return f
        return self.file


class Stream:
    def __init__(self, log, key):
        self.log, self.key = log, key

    def open_recorder(self, name, open_time=None, type_name=""):
        self.log.append(self.key)
        return None


class Db:
    def __init__(self):
        self.opened, self.records = [], []

    def open_stream(self, name, scope="", type_name=""):
        self.opened.append((name, scope, type_name))
        return Stream(self.records, (name, scope))


def run(case, mon):
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    cs = UVMCoreService.get()
    root, srv = cs.get_root(), cs.get_report_server()
    saved = srv.logger, srv.get_message_database(), srv.record_all_messages
    with Output():
        try:
            Case(case, mon, root, srv).go()
        finally:
            root.reset_report_handler()
            srv.set_logger(saved[0])
            srv.set_message_database(saved[1])
            srv.record_all_messages = saved[2]
            srv.show_verbosity = srv.show_terminator = False
            srv.m_streams = {}
    mon.nontrivial = mon.counters.get("shown", 0) > 0 and mon.counters.get("suppressed_verbosity", 0) + mon.counters.get("suppressed_action", 0) > 0


class Case:
    def __init__(self, case, mon, root, srv):
        self.case, self.mon, self.root, self.srv = case, mon, root, srv
        self.shown = []
        self.aborted = []

    def go(self):
        from uvm.base.uvm_component import UVMComponent
        from uvm.base.uvm_report_object import UVMReportObject
        case, mon = self.case, self.mon
        me = self

        class Mixin:
            def macro(self, sev, id, msg, verb):
                from uvm.macros import uvm_info, uvm_warning, uvm_error, uvm_fatal
                if sev == INFO:
                    me.line = line() + 1
                    uvm_info(id, msg, verb)
                elif sev == WARNING:
                    me.line = line() + 1
                    uvm_warning(id, msg)
                elif sev == ERROR:
                    me.line = line() + 1
                    uvm_error(id, msg)
                else:
                    me.line = line() + 1
                    uvm_fatal(id, msg)

        class Comp(Mixin, UVMComponent):
            def pre_abort(self):
                if not me.aborted:
                    me.records = len(me.db.records)     # the summary that follows may be recorded too
                me.aborted.append(self)

        class Obj(Mixin, UVMReportObject):
            pass

        class NotReporter(Mixin):
            pass
        self.Comp = Comp
        self.root.reset_report_handler()
        comps = [Comp(f"top{next(_ids)}", None)]
        for p, n in case["tree"]:
            comps.append(Comp(n, comps[p]))
        self.comps = comps
        self.plain = [Obj(f"obj{i}") for i in range(case["plain"])]
        self.models = {id(o): Model(o.get_full_name()) for o in comps + self.plain}
        self.models[id(self.root)] = Model(self.root.get_report_handler().get_full_name())
        self.kids = {id(c): [] for c in comps}
        for (p, n), c in zip(case["tree"], comps[1:]):
            self.kids[id(comps[p])].append(c)
        self.other = NotReporter()
        self.files = [0, io.StringIO(), io.StringIO()]
        self.db = Db()
        self.srv.set_logger(self.shown.append)
        self.srv.set_message_database(self.db)
        self.srv.show_verbosity = case["show_verbosity"]
        self.srv.show_terminator = case["show_terminator"]
        self.srv.record_all_messages = case["record_all"]
        self.srv.m_streams = {}
        for i, st in enumerate(case["steps"]):
            getattr(self, "do_" + st[0])(i, *st[1:])
            mon.count("steps")

    def who(self, k):
        objs = [self.root] + self.comps + self.plain
        return objs[k % len(objs)]

    # ---- settings ---------------------------------------------------------------------------------
    def below(self, o):
        res = [o]
        for k in self.kids.get(id(o), []):
            res += self.below(k)
        return res

    def do_set(self, i, k, what, hier, sev, id_, vals):
        o = self.who(k)
        hier = hier and o in self.comps and what not in ("ov", "idov")
        m = self.models[id(o)]
        if m is self.models[id(self.root)] and what in ("sevact", "ov"):
            # the summary at the end of the run is made of INFO reports of the root: they must not end the run themselves
            acts, ov = dict(m.sevact), dict(m.ov)
            (acts if what == "sevact" else ov)[sev] = vals["a"] if what == "sevact" else vals["s"]
            if acts[ov.get(INFO, INFO)] & (EXIT | STOP):
                return
        name, args = {
            "verb": ("set_report_verbosity_level", (vals["v"],)), "idverb": ("set_report_id_verbosity", (id_, vals["v"])),
            "sidverb": ("set_report_severity_id_verbosity", (sev, id_, vals["v"])), "sevact": ("set_report_severity_action", (sev, vals["a"])),
            "idact": ("set_report_id_action", (id_, vals["a"])), "sidact": ("set_report_severity_id_action", (sev, id_, vals["a"])),
            "ov": ("set_report_severity_override", (sev, vals["s"])), "idov": ("set_report_severity_id_override", (sev, id_, vals["s"])),
            "file": ("set_report_default_file", (self.files[vals["f"]],)), "sevfile": ("set_report_severity_file", (sev, self.files[vals["f"]])),
            "idfile": ("set_report_id_file", (id_, self.files[vals["f"]])), "sidfile": ("set_report_severity_id_file", (sev, id_, self.files[vals["f"]])),
        }[what]
        getattr(o, name + ("_hier" if hier else ""))(*args)
        self.mon.count("hier_settings", hier)
        for x in self.below(o) if hier else [o]:
            m = self.models[id(x)]
            if what in ("verb", "file"):
                setattr(m, what, args[0])
            elif what in ("idverb", "idact", "idfile"):
                getattr(m, what)[id_] = args[1]
            elif what in ("sevact", "sevfile", "ov"):
                getattr(m, what)[sev] = args[1]
            elif what == "idov":
                m.idov.setdefault(id_, {})[sev] = args[2]
            else:
                getattr(m, what)[sev, id_] = args[2]
        self.getters(i)

    def getters(self, i):
        """Everything all the reporters say about a severity and id"""
        mon = self.mon
        sev, id_ = i % 4, IDS[i // 4 % 3]
        for o in [self.root] + self.comps + self.plain:
            m = self.models[id(o)]
            mon.count("getters")
            mon.equal(o.get_report_action(sev, id_), m.action(sev, id_), "get_report_action")
            mon.equal(o.get_report_verbosity_level(sev, id_), m.limit(sev, id_), "get_report_verbosity_level")
            mon.equal(o.get_report_max_verbosity_level(), m.verb, "get_report_max_verbosity_level")
            mon.check(o.get_report_file_handle(sev, id_) is m.get_file(sev, id_) or o.get_report_file_handle(sev, id_) == m.get_file(sev, id_) == 0,
                      "get_report_file_handle", "another file than set")
            for v in (100, 200, 300):
                mon.equal(bool(o.uvm_report_enabled(v, sev, id_)), m.limit(sev, id_) >= v, "uvm_report_enabled")

    def do_component(self, i, k, name):
        p = self.comps[k % len(self.comps)]
        if p.has_child(name):
            return
        c = self.Comp(name, p)
        self.mon.count("late_components")
        m = self.models[id(c)] = Model(c.get_full_name())
        m.verb = self.models[id(p)].limit(INFO, "")
        self.kids[id(c)] = []
        self.kids[id(p)].append(c)
        self.comps.append(c)
        self.getters(i)

    def do_reset(self, i, k):
        o = self.who(k)
        o.reset_report_handler()
        self.models[id(o)].reset()
        self.mon.count("resets")
        self.getters(i)

    def do_share(self, i, k, k2):
        if not self.plain:
            return
        o, src = self.plain[k % len(self.plain)], self.who(k2)
        o.set_report_handler(src.get_report_handler())
        self.models[id(o)] = self.models[id(src)]
        self.mon.count("shared_handlers")
        self.getters(i)

    # ---- reports ----------------------------------------------------------------------------------
    def do_report(self, i, k, how, sev, id_, verb):
        from uvm.base.uvm_exceptions import UVMFinishError
        import uvm.base.uvm_globals as ug
        from uvm.macros import uvm_info_context, uvm_error_context
        mon = self.mon
        o = self.who(k)
        if how == "macro" and not (o in self.comps or o in self.plain):
            o_say, o = self.other, self.root          # not a report object: reports through the root
        elif how == "macro":
            o_say = o
        if how == "context" and sev not in (INFO, ERROR):
            how = "method"
        if how == "plain":
            o = self.root
        m = self.models[id(o)]
        msg = f"msg{i} of {SEVS[sev]} %s %d"
        if how == "context" and sev == ERROR:
            verb = 0
        if how == "macro" or how == "context" and sev == ERROR:
            verb = (verb if verb is not None else 200) if sev == INFO else 0
        if how == "context" and sev == INFO and verb is None:
            verb = 200
        self.line = None
        del self.shown[:], self.aborted[:], self.db.records[:]
        self.records = None
        marks = [None] + [f.tell() for f in self.files[1:]]
        raised = None
        try:
            if how == "macro":
                mon.count("macro_reports")
                o_say.macro(sev, id_, msg, verb)
            elif how == "context":
                if sev == INFO:
                    self.line = line() + 1
                    uvm_info_context(id_, msg, verb, o)
                else:
                    self.line = line() + 1
                    uvm_error_context(id_, msg, o)
            else:
                names = ["uvm_report_info", "uvm_report_warning", "uvm_report_error", "uvm_report_fatal"]
                target = ug if how == "plain" else o
                if how == "uvm_report":
                    target.uvm_report(sev, id_, msg, *([] if verb is None else [verb]), filename="f.py", line=7, context_name="ctx")
                else:
                    getattr(target, names[sev])(id_, msg, *([] if verb is None else [verb]))
        except UVMFinishError:
            raised = "exit"
        except Exception as e:
            if "$stop" not in str(e):
                raise
            raised = "stop"
        if verb is None:
            verb = {"method": [200, 200, 100, 0], "plain": [200, 100, 100, 0], "uvm_report": [200, 200, 100, 0]}[how][sev]
        # ---- expected
        mon.count("reports")
        enabled = m.limit(sev, id_) >= verb
        act, sev2, file = 0, sev, 0
        if enabled:
            sev2 = m.severity(sev, id_)
            act = m.action(sev2, id_)
            file = m.get_file(sev2, id_)
            mon.count("overridden", sev2 != sev)
            mon.count("suppressed_action", act == 0)
        else:
            mon.count("suppressed_verbosity")
        rec = act and (act & REC or self.case["record_all"])
        screen = [s for s in self.shown if "msg%d of" % i in s and "Number of" not in s]
        want = bool(act & DISPLAY) + bool(act & LOG and file == 0)
        w = dict(report=[how, SEVS[sev], id_, verb], limit=m.limit(sev, id_), action=act, shown=self.shown[:4], severity=SEVS[sev2])
        mon.event("report", how, sev, id_, verb, len(screen))
        ok = mon.check(len(screen) == want, f"{how}: number of times a report is displayed ({'enabled' if enabled else 'above the verbosity limit'}, "
                       f"action {act})", f"displayed {len(screen)} times, expected {want}", **w)
        for n, f in enumerate(self.files[1:], 1):
            f.seek(marks[n])
            text = f.read()
            f.seek(0, 2)
            exp = 1 if act & LOG and file is f else 0
            mon.count("file_writes", exp)
            lines = [x for x in text.split("\n") if "msg%d of" % i in x]
            mon.check(len(lines) == exp, f"{how}: number of times a report is written to a log file", **w)
            screen += lines
        mon.count("shown", want)
        name = m.name
        for s in screen if ok else []:
            pat = (re.escape(SEVS[sev2]) + (r"\((?P<verb>\w+)\)" if self.case["show_verbosity"] else "") + r" (?P<loc>\S+\(\d+\) )?@ [\d.]+NS: "
                   + re.escape(name) + ("@@ctx" if how == "uvm_report" else "") + re.escape(f" [{id_}] {msg}") + (" -" + SEVS[sev2] if self.case["show_terminator"] else "") + "$")
            g = re.match(pat, s)
            if mon.check(g, "text of a displayed report", lambda: "", pattern=pat, text=s, **w):
                if self.case["show_verbosity"]:
                    names = {0: "UVM_NONE", 100: "UVM_LOW", 200: "UVM_MEDIUM", 300: "UVM_HIGH", 400: "UVM_FULL", 500: "UVM_DEBUG"}
                    mon.equal(g["verb"], names.get(verb, str(verb)), "verbosity shown in the report")
                if how == "uvm_report":
                    mon.equal(g["loc"], "f.py(7) ", "file and line shown in the report")
                elif self.line is not None:
                    mon.check(g["loc"] is not None and g["loc"].endswith(f"c21.py({self.line}) "), f"{how}: file and line shown in the report", text=s, line=self.line)
        n = len(self.db.records) if self.records is None else self.records
        mon.check(n == (1 if rec else 0), f"{how}: number of times a report is recorded in the message database", got=n, **w)
        mon.count("recorded", n)
        mon.check(len(set(self.db.opened)) == len(self.db.opened), "a message stream is opened again for the same reporter", opened=self.db.opened)
        exp = "exit" if act & EXIT else "stop" if act & STOP else None
        mon.count("exits", exp == "exit")
        mon.count("stops", exp == "stop")
        mon.check(raised == exp, f"{how}: ending the run ({exp} expected)", got=raised, **w)
        if raised == "exit":
            mon.check(len(self.aborted) == len(self.comps) and set(map(id, self.aborted)) == set(map(id, self.comps)),
                      "pre_abort is not called once for every component", got=len(self.aborted), want=len(self.comps))
            pos = {id(c): n for n, c in enumerate(self.aborted)}
            for c in self.comps[1:]:
                mon.check(pos.get(id(c), 0) < pos.get(id(c.get_parent()), 1 << 30), "pre_abort of a parent is called before its children's")


def line():
    return inspect.currentframe().f_back.f_lineno
