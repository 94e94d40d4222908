"""C37: transaction recording: a text database against a model of every stream, record, link and attribute.

Each case opens streams and recorders, begins and ends transactions through themselves, through components and through sequences, closes
and frees things in any order, and reads the file back: it must hold exactly the predicted entries in the predicted order."""
import itertools
import os
import re
import shutil
import tempfile

from cocotb.triggers import Timer

SIM = True
BATCH = 20
CASES = {"quick": 2000, "thorough": 40000}
TECHNIQUE = "runtime monitoring: the recorded database read back and compared line by line with a model; hooks, events, times and handles after every step"
LEVEL_NOTE = "Random histories on the real classes; exploration, no claim beyond what ran."
RULE = ("10-60 steps on 1-2 databases, up to 5 streams, 4 transactions, 2 components and nested sequences; non-trivial: a transaction was recorded while another was open; "
        "distinct: hash of the predicted entries without identifiers")
REQUIRE = {"ev_lines_attr": 15000, "ev_lines_open": 5000, "ev_lines_link": 1200, "ev_runs_recorded": 600, "runs_with_parent": 400, "begins": 2500, "comp_begins": 1600,
           "comp_ends": 250, "events": 800, "superseded": 600, "stream_ends": 400, "refused": 150, "bad_links": 70, "db_closes": 80, "looks": 1500}
ASSUMPTIONS = ["Times are whole nanoseconds above 0.",
               "Text recording is used; numbers are compared by value, not by letter case or padding."]
_ids = itertools.count()
KINDS = ["", "Kind", "Begin_End, Link"]


def gen(rng, tier):
    if rng.random() < .25:
        def seq(depth):
            return {"kids": [seq(depth - 1) for _ in range(rng.choice([0, 1, 1, 2]))] if depth else [], "before": rng.choice([0, 1, 4]), "after": rng.choice([0, 1, 3]),
                    "items": rng.choice([0, 0, 1, 2]), "v": rng.randrange(1000), "par": rng.random() < .4}
        return {"kind": "seq", "roots": [seq(rng.choice([0, 1, 2])) for _ in range(rng.choice([1, 1, 2]))], "detail": rng.random() < .85, "item": rng.choice([0, 1, 5]),
                "drv": rng.random() < .7}
    ops = [["stream", 0, rng.randrange(3), 0, 0, True], ["enable", 0, 0, 0, 0, True], ["enable", 1, 0, 0, 0, True], ["rec", 0, 0, 0, 0, True]][:rng.choice([0, 2, 4, 4])]
    for _ in range(rng.randint(10, 60 if tier == "quick" else 150)):
        op = rng.choices(["stream", "close_stream", "free_stream", "rec", "field", "str", "obj", "close_rec", "free_rec", "enable", "disable", "accept", "begin", "child", "end",
                          "link", "cbegin", "cchild", "cend", "cevent", "cerror", "caccept", "cfree", "wait", "close_db", "look"],
                         [4, 1, 1, 4, 3, 2, 2, 3, 2, 4, 1, 3, 7, 4, 8, 2, 6, 4, 7, 2, 2, 2, .5, 7, .4, 2])[0]
        ops.append([op, rng.randrange(1000), rng.randrange(1000), rng.choice([0, 0, 0, rng.randint(1, 500)]), rng.randrange(1000), rng.random() < .7])
    return {"kind": "ops", "ops": ops, "dbs": rng.choice([1, 1, 1, 2]), "details": [rng.random() < .85, rng.random() < .5],
            "trs": [{"a": rng.randrange(1 << 32), "d": rng.randrange(-1000, 1000), "b": rng.randrange(256), "n": rng.randrange(100), "s": rng.choice(["", "hello", "a b"]),
                     "o": rng.choice([None, rng.randrange(1000)]), "x": rng.choice([None, rng.randrange(1000)])} for _ in range(4)]}


def classes():
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_object_globals import UVM_ALL_ON, UVM_BIN, UVM_DEC, UVM_NORECORD
    from uvm.base.uvm_transaction import UVMTransaction
    from uvm.macros import (uvm_field_int, uvm_field_object, uvm_field_string, uvm_object_utils_begin, uvm_object_utils_end)

    class RecInner(UVMObject):
        def __init__(self, name="inner"):
            super().__init__(name)
            self.k = 0
    uvm_object_utils_begin(RecInner)
    uvm_field_int("k", UVM_ALL_ON)
    uvm_object_utils_end(RecInner)

    class RecTr(UVMTransaction):
        def __init__(self, name="tr"):
            super().__init__(name)
            self.a = self.d = self.b = self.n = 0
            self.s = ""
            self.o = None
            self.x = None
            self.hook = None

        def do_record(self, recorder):
            if self.x is not None:
                recorder.record_field_int("x", self.x, 16)

        def do_accept_tr(self):
            self.hook("accept")

        def do_begin_tr(self):
            self.hook("begin")

        def do_end_tr(self):
            self.hook("end")
    uvm_object_utils_begin(RecTr)
    uvm_field_int("a", UVM_ALL_ON)
    uvm_field_int("d", UVM_ALL_ON | UVM_DEC)
    uvm_field_int("b", UVM_ALL_ON | UVM_BIN)
    uvm_field_int("n", UVM_ALL_ON | UVM_NORECORD)
    uvm_field_string("s", UVM_ALL_ON)
    uvm_field_object("o", UVM_ALL_ON)
    uvm_object_utils_end(RecTr)
    return RecInner, RecTr


LINE = [("create_stream", re.compile(r"^\s*CREATE_STREAM @(\S+) \[NAME:(.*) T:(.*) SCOPE:(.*) STREAM:(\d+)\]$")),
        ("close_stream", re.compile(r"^\s*CLOSE_STREAM @(\S+) \{NAME:(.*) T:(.*) SCOPE:(.*) STREAM:(\d+)\}$")),
        ("free_stream", re.compile(r"^\s*FREE_STREAM @(\S+) \{NAME:(.*) T:(.*) SCOPE:(.*) STREAM:(\d+)\}$")),
        ("open", re.compile(r"^\s*OPEN_RECORDER @(\S+) \{TXH:(\d+) STREAM:(\d+) NAME:(.*) TIME:(\S+) TYPE=\"(.*)\"\}$")),
        ("attr", re.compile(r"^\s*SET_ATTR @(\S+) \{TXH:(\d+) NAME:(.*) VALUE:(.*)   RADIX:(\S+) BITS=(\d+)\}$")),
        ("close", re.compile(r"^\s*CLOSE_RECORDER @(\S+) \{TXH:(\d+) TIME=(\S+)\}$")),
        ("free", re.compile(r"^\s*FREE_RECORDER @(\S+) \{TXH:(\d+)\}$")),
        ("link", re.compile(r"^\s*LINK @(\S+) \{TXH1:(\d+) TXH2:(\d+) RELATION=(.*)\}$"))]
BASE = {"h": 16, "d": 10, "u": 10, "b": 2, "o": 8}


def parse(text):
    out = []
    for line in text.splitlines():
        for kind, rx in LINE:
            m = rx.match(line)
            if m:
                g = list(m.groups())
                g[0] = float(g[0])
                if kind == "open":
                    g[4] = float(g[4])
                if kind == "close":
                    g[2] = float(g[2])
                if kind == "attr" and g[4] in BASE:
                    try:
                        g[3] = int(g[3].replace("'" + g[4], ""), BASE[g[4]])
                    except ValueError:
                        pass
                out.append((kind,) + tuple(g))
                break
        else:
            out.append(("?", line))
    return out


class Later:
    """an identifier that is not known yet: it takes the value it is first compared with"""

    def __init__(self):
        self.value = None

    def __eq__(self, other):
        if self.value is None:
            self.value = other
        return self.value == other

    def __str__(self):
        return "?" if self.value is None else self.value
    __repr__ = __str__
    __hash__ = None


class Db:
    """the model of one text database"""

    def __init__(self, now):
        self.now = now
        self.lines = []
        self.handles = {}          # handle -> Rec it finds


class Stream:
    def __init__(self, db, real, name, scope, typ):
        self.db, self.real, self.name, self.scope, self.typ = db, real, name, scope, typ
        self.state = "open"
        self.h = real.get_handle()
        self.recs = []
        self.line("create_stream")

    def line(self, what):
        self.db.lines.append((what, self.db.now(), self.name, self.typ, self.scope, str(self.h)))

    def close(self):
        if self.state == "open":
            self.line("close_stream")
            for r in list(self.recs):
                r.close(0)
            self.state = "closed"

    def free(self):
        if self.state == "freed":
            return
        self.close()
        self.line("free_stream")
        for r in list(self.recs):
            r.free(0)
        self.state = "freed"


class Rec:
    def __init__(self, stream, h, name, time, kind):
        self.stream, self.db, self.h, self.name, self.kind = stream, stream.db, h, name, kind
        self.opened = float(time or self.db.now())
        self.hs = Later() if h is None else str(h)
        self.state = "open"
        self.closed = None
        self.real = None
        self.db.lines.append(("open", self.db.now(), self.hs, str(stream.h), name, self.opened, kind))
        if h is not None:
            self.db.handles[h] = self
        stream.recs.append(self)

    def close(self, time):
        if self.state == "open":
            self.closed = float(time or self.db.now())
            self.db.lines.append(("close", self.db.now(), self.hs, self.closed))
            self.state = "closed"

    def free(self, time):
        if self.state == "freed":
            return
        self.close(time)
        self.db.lines.append(("free", self.db.now(), self.hs))
        self.state = "freed"
        self.stream.recs.remove(self)
        self.db.handles.pop(self.h, None)

    def attr(self, name, value, radix, bits):
        if self.state != "freed":
            self.db.lines.append(("attr", self.db.now(), self.hs, name, value, radix, str(bits)))

    def string(self, name, value):
        self.attr(name, value, "UVM_STRING", 8 + len(value))

    def record(self, tr):
        """the attributes of one transaction"""
        self.attr("a", tr.a, "h", 32)
        self.attr("d", tr.d, "d", 32)
        self.attr("b", tr.b, "b", 32)
        self.string("s", tr.s)
        self.attr("o", tr.o.get_inst_id() if tr.o is not None else 0, "d", 32)
        if tr.o is not None:
            self.attr("o.k", tr.o.k, "h", 32)
        if tr.x is not None:
            self.attr("x", tr.x, "h", 16)


class Tr:
    """the model of one transaction"""

    def __init__(self, real, i):
        self.real, self.i, self.stream, self.rec = real, i, None, None
        self.accept = self.begin = self.end = -1.0


class CountCb:
    def __init__(self, log, who):
        self.log, self.who = log, who

    def pre_trigger(self, e, data):
        return False

    def post_trigger(self, e, data):
        self.log.append(("event",) + self.who)


async def run(case, mon):
    tmp = tempfile.mkdtemp(prefix="vp-c37-")
    try:
        if case["kind"] == "seq":
            await run_seq(case, mon, os.path.join(tmp, "seq.log"))
        else:
            await run_ops(case, mon, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def read_back(mon, path, want):
    got = parse(open(path).read()) if os.path.exists(path) else []
    for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
        if not mon.check(g == w, "entry-" + (w or g)[0], "an entry of the database", entry=i, found=g, expected=w, before=want[max(0, i - 3):i]):
            return
        mon.event("lines_" + g[0], str([x for x in g[1:] if not str(x).isdigit()]))


async def run_ops(case, mon, tmp):
    from cocotb.utils import get_sim_time
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_links import UVMParentChildLink, UVMRelatedLink
    from uvm.base.uvm_object_globals import UVM_BIN, UVM_DEC, UVM_FULL, UVM_HEX, UVM_NONE, UVM_OCT, UVM_UNSIGNED
    from uvm.base.uvm_recorder import UVMRecorder
    from uvm.base.uvm_tr_database import UVMTextTrDatabase
    from uvm.base.uvm_tr_stream import UVMTrStream
    from vp.monitor import Output
    RecInner, RecTr = classes()
    tag = next(_ids)
    await Timer(1, "NS")

    def now():
        return float(get_sim_time("ns"))

    paths = [os.path.join(tmp, "db%d.log" % i) for i in range(case["dbs"])]
    reals, models = [], []
    for p in paths:
        db = UVMTextTrDatabase("db")
        db.set_file_name(p)
        reals.append(db)
        models.append(Db(now))

    log, trs, comps, streams, recs = [], [], [], [], []
    for i, f in enumerate(case["trs"]):
        t = RecTr("" if i == 3 else "t%d" % i)
        for k in "adbnsx":
            setattr(t, k, f[k])
        if f["o"] is not None:
            t.o = RecInner("in")
            t.o.k = f["o"]
        t.vpi = i
        t.hook = lambda what, i=i: log.append(("hook", i, what))
        for ev in ("accept", "begin", "end"):
            t.get_event_pool().get(ev).add_callback(CountCb(log, (i, ev)))
        trs.append(Tr(t, i))

    class Comp(UVMComponent):
        def do_accept_tr(self, tr):
            log.append(("chook", self.ci, "accept", tr.vpi))

        def do_begin_tr(self, tr, stream_name, tr_handle):
            log.append(("chook", self.ci, "begin", tr.vpi, stream_name, tr_handle))

        def do_end_tr(self, tr, tr_handle):
            log.append(("chook", self.ci, "end", tr.vpi, tr_handle))

    for i in range(2):
        c = Comp("c37_%d_%d" % (tag, i), None)
        c.ci = i
        c.vpdb = i % case["dbs"]
        c.tr_database = reals[c.vpdb]
        c.recording_detail = UVM_FULL if case["details"][i] else UVM_NONE
        for ev in ("accept_tr", "begin_tr", "end_tr"):
            c.event_pool.get(ev).add_callback(CountCb(log, ("c%d" % i, ev)))
        c.vpstreams, c.vptr = {}, {}
        comps.append(c)

    def new_rec(s, handle, name, time, kind):
        """the model record for a handle the library returned"""
        real = UVMRecorder.get_recorder_from_handle(handle)
        if not mon.check(real is not None and all(handle not in md.handles for md in models), "handle-new", "the handle of a new record finds it and no other", handle=handle):
            return None
        others = sum(r.state == "open" for r in recs)
        r = Rec(s, handle, name, time, kind)
        r.real = real
        recs.append(r)
        if others:
            mon.nontrivial = True
        return r

    def found(handle):
        return next((md.handles[handle] for md in models if handle in md.handles), None)

    def tr_end(m, time, free):
        m.end = float(time or now())
        ev = [("hook", m.i, "end")]
        if m.stream is not None and m.rec is not None:
            m.rec.record(m.real)
            m.rec.close(m.end)
            if free:
                m.rec.free(0)
        m.rec = None
        return ev + [("event", m.i, "end")]

    def tr_supersede(m, begin):
        if m.rec is None:
            return []
        mon.count("superseded")
        return tr_end(m, begin, True)

    def linked(db, a, b, rel):
        """what linking two records in one database writes; records of another database cannot be linked"""
        if a.db is b.db is models[db]:
            models[db].lines.append(("link", now(), a.hs, b.hs, rel))
            mon.count("links")
            return True
        mon.count("bad_links")
        return False

    def tr_begin(m, begin, handle, parent):
        """what a begin did, its record (if any) having this handle"""
        m.begin, m.end = float(begin), -1.0
        m.rec = None
        ok = m.stream is not None and m.stream.state == "open"
        if mon.equal(handle != 0, ok, "begin-handle", "a begin is recorded exactly when recording is enabled on an open stream", tr=m.i) and ok:
            m.rec = new_rec(m.stream, handle, "RecTr", begin, "Begin_End, Link" if parent else "Begin_No_Parent, Link")
            if parent is not None and m.rec is not None:
                mon.count("children")
                linked(models.index(m.rec.db), parent, m.rec, "child")
        return [("hook", m.i, "begin"), ("event", m.i, "begin")]

    def pick_parent(m, i, use):
        """a record to be the parent (not this transaction's own), and its handle; handles of nothing otherwise"""
        if not use or not recs:
            return None, 10 ** 9 + i
        r = recs[i % len(recs)]
        if r is m.rec:
            return None, 0
        return found(r.h), r.h

    def cstream(c, name):
        """the component's stream of that name; the first use opens it"""
        key = name or "main"
        if key not in c.vpstreams:
            real = c.m_main_stream if key == "main" else c.get_tr_stream(key)
            if not mon.check(isinstance(real, UVMTrStream), "comp-stream", "the component has a stream of that name", name=key):
                return None
            c.vpstreams[key] = Stream(models[c.vpdb], real, key, c.get_full_name(), "TVM" if key == "main" else "")
            streams.append(c.vpstreams[key])
        return c.vpstreams[key]

    def state(m, where):
        t = m.real
        mon.equal((float(t.get_accept_time()), float(t.get_begin_time()), float(t.get_end_time())), (m.accept, m.begin, m.end),
                  "times-" + where, "accept, begin and end times", tr=m.i)
        mon.equal(bool(t.is_active()), m.end == -1, "active-" + where, "active from begin to end", tr=m.i)
        mon.equal(t.get_tr_handle(), m.rec.h if m.rec is not None and m.rec.state != "freed" else 0, "tr-handle-" + where, "the handle of the current record", tr=m.i)
        mon.equal(bool(t.is_recording_enabled()), m.stream is not None, "enabled-" + where, "recording enabled", tr=m.i)

    def look():
        for r in recs:
            real = UVMRecorder.get_recorder_from_handle(r.h)
            mon.check(real is (r.real if r.state != "freed" else None), "handle-found", "a handle finds its record until that is freed", state=r.state)
            mon.equal((bool(r.real.is_open()), bool(r.real.is_closed()), r.real.get_handle()), (r.state == "open", r.state == "closed", 0 if r.state == "freed" else r.h),
                      "recorder-state", "state of a recorder", state=r.state)
            mon.equal(float(r.real.get_open_time()), r.opened, "open-time", "the time a record was opened")
            if r.closed is not None:
                mon.equal(float(r.real.get_close_time()), r.closed, "close-time", "the time a record was closed")
            if r.state != "freed":
                mon.check(r.real.get_stream() is r.stream.real, "recorder-stream", "the stream of a recorder")
        for s in streams:
            mon.equal((bool(s.real.is_open()), bool(s.real.is_closed()), s.real.get_handle()), (s.state == "open", s.state == "closed", 0 if s.state == "freed" else s.h),
                      "stream-state", "state of a stream", state=s.state)
            mon.check(UVMTrStream.get_stream_from_handle(s.h) is (s.real if s.state != "freed" else None), "stream-handle-found", "a handle finds its stream until that is freed")
            q = ["old"]
            n = s.real.get_recorders(q)
            known = {id(r.real) for r in s.recs if r.real is not None}
            mon.check(n == len(q) == len(s.recs) and known <= {id(x) for x in q}, "get-recorders", "the recorders of a stream", got_n=n, expected_n=len(s.recs))
        mon.count("looks")

    for op, x, y, time, z, flag in case["ops"]:
        m, c = trs[x % 4], comps[y % 2]
        expect = []
        with Output() as o:
            if op == "wait":
                await Timer(1 + x % 20, "NS")
            elif op == "stream":
                db = x % len(reals)
                if sum(s.state == "open" for s in streams) < 5:
                    name, typ = "s%d" % (y % 3), "T%d" % (z % 2)
                    r = reals[db].open_stream(name, "top.x", typ)
                    if mon.check(r is not None and r.is_open() and not r.is_closed(), "stream-open", "a new stream is open"):
                        streams.append(Stream(models[db], r, name, "top.x", typ))
                        mon.equal((r.get_scope(), r.get_stream_type_name(), r.get_db() is reals[db]), ("top.x", typ, True), "stream-config", "scope, type and database")
            elif op in ("close_stream", "free_stream") and streams:
                s = streams[x % len(streams)]
                getattr(s, op[:-7])()
                getattr(s.real, op[:-7])()
                mon.count("stream_ends")
            elif op == "rec" and streams:
                s = streams[x % len(streams)]
                r = s.real.open_recorder("r%d" % (y % 3), time, KINDS[z % 3])
                if mon.equal(r is not None, s.state == "open", "open-recorder", "a recorder opens exactly in an open stream", state=s.state):
                    if r is None:
                        mon.count("refused")
                    else:
                        new_rec(s, r.get_handle(), "r%d" % (y % 3), time, KINDS[z % 3])
            elif op in ("field", "str", "obj") and recs:
                r = recs[x % len(recs)]
                if op == "field":
                    radix, ch = [(UVM_HEX, "h"), (UVM_DEC, "d"), (UVM_BIN, "b"), (UVM_OCT, "o"), (UVM_UNSIGNED, "u"), (0, "h")][y % 6]
                    (r.real.record_field if flag else r.real.record_field_int)("f%d" % (y % 3), z, 10, radix)
                    r.attr("f%d" % (y % 3), z, ch, 10)
                elif op == "str":
                    r.real.record_string("st", "v%d w" % z)
                    r.string("st", "v%d w" % z)
                else:
                    i = RecInner("i")
                    i.k = z
                    r.real.record_object("ob", i)
                    r.attr("ob", i.get_inst_id(), "d", 32)
                    r.attr("ob.k", z, "h", 32)
                mon.count("attributes" if r.state != "freed" else "attributes_late")
            elif op in ("close_rec", "free_rec") and recs:
                r = recs[x % len(recs)]
                mon.count("again" if r.state != "open" else "rec_ends")
                getattr(r, op[:-4])(time)
                getattr(r.real, op[:-4])(time)
            elif op == "enable" and streams:
                m.stream = streams[y % len(streams)]
                m.real.enable_recording(m.stream.real)
            elif op == "disable":
                m.stream = None
                m.real.disable_recording()
            elif op in ("accept", "caccept"):
                m.accept = float(time or now())
                (m.real.accept_tr(time) if op == "accept" else c.accept_tr(m.real, time))
                expect = [("hook", m.i, "accept"), ("event", m.i, "accept")]
                if op == "caccept":
                    expect += [("chook", c.ci, "accept", m.i), ("event", "c%d" % c.ci, "accept_tr")]
            elif op in ("begin", "child"):
                begin = time or now()
                parent, h = pick_parent(m, y, flag) if op == "child" else (None, 0)
                expect = tr_supersede(m, begin)
                handle = m.real.begin_child_tr(time, h) if op == "child" else m.real.begin_tr(time)
                expect += tr_begin(m, begin, handle, parent)
                mon.count("begins")
            elif op == "end":
                expect = tr_end(m, time, flag)
                m.real.end_tr(time, 1 if flag else 0)
                mon.count("ends")
            elif op == "link" and recs:
                a, b, db = recs[x % len(recs)], recs[y % len(recs)], z % len(reals)
                if a.state != "freed" and b.state != "freed":
                    o.take()
                    reals[db].establish_link((UVMParentChildLink if flag else UVMRelatedLink).get_link(a.real, b.real))
                    done = linked(db, a, b, "child" if flag else "")
                    mon.equal([r[1] for r in o.take()[0] if r[0] == "UVM_WARNING"], [] if done else ["UVM/TR_DB/BAD_LINK"], "link-report", "links across databases are refused")
            elif op in ("cbegin", "cchild"):
                begin = time or now()
                name = ["main", "main", "", "A", "B"][z % 5]
                label, desc = ["", "lab"][z // 5 % 2], ["", "some words"][z // 10 % 2]
                parent, h = pick_parent(m, z, flag) if op == "cchild" else (None, 0)
                on = case["details"][c.ci]
                expect = tr_supersede(m, begin)
                if op == "cchild":
                    handle = c.begin_child_tr(m.real, h, name, label, desc, time)
                else:
                    handle = c.begin_tr(m.real, name, label, desc, time)
                expect += tr_begin(m, begin, m.real.get_tr_handle(), parent)
                if on:
                    s = cstream(c, name)
                    ok = s is not None and s.state == "open"
                    if mon.equal(handle != 0, ok, "comp-begin-handle", "a component records a begin exactly when its stream is open", stream=name) and ok:
                        r = new_rec(s, handle, m.real.get_name() or "RecTr", begin, "Begin_End, Link" if parent else "Begin_No_Parent, Link")
                        if r is not None:
                            if label:
                                r.string("label", label)
                            if desc:
                                r.string("desc", desc)
                            if parent is not None:
                                linked(c.vpdb, parent, r, "child")
                            if m.rec is not None:
                                linked(c.vpdb, r, m.rec, "")
                            c.vptr[m.i] = r
                    expect += [("chook", c.ci, "begin", m.i, name, handle)]
                    mon.count("comp_begins")
                else:
                    mon.equal(handle, 0, "comp-begin-off", "a component that does not record gives no handle")
                expect += [("event", "c%d" % c.ci, "begin_tr")]
            elif op == "cend":
                expect = tr_end(m, time, flag)
                r = c.vptr.pop(m.i, None) if case["details"][c.ci] else None
                if case["details"][c.ci]:
                    expect += [("chook", c.ci, "end", m.i, r.h if r is not None and r.state != "freed" else 0)]
                if r is not None:
                    r.record(m.real)
                    r.close(time)
                    if flag:
                        r.free(0)
                    mon.count("comp_ends")
                expect += [("event", "c%d" % c.ci, "end_tr")]
                c.end_tr(m.real, time, 1 if flag else 0)
            elif op in ("cevent", "cerror"):
                name, label, desc = ["main", "", "A", "B"][z % 4], ["", "lab"][z // 4 % 2], ["", "some words"][z // 8 % 2]
                info = m.real if z % 3 else None
                handle = (c.record_event_tr if op == "cevent" else c.record_error_tr)(name, info, label, desc, time, 1 if flag else 0)
                s = cstream(c, name)
                ok = s is not None and s.state == "open"
                if mon.equal(handle != 0, ok and flag, "event-handle", "an event that is kept has a handle", op=op) and ok:
                    kind = "Event, Link" if flag else "Event"
                    r = new_rec(s, handle, label, time, kind) if flag else Rec(s, None, label, time, kind)
                    if r is not None:
                        if label:
                            r.string("label", label)
                        if desc:
                            r.string("desc", desc)
                        if info is not None:
                            r.record(info)
                        r.close(r.opened)
                        if not flag:
                            r.free(0)
                        mon.count("events")
            elif op == "cfree" and c.vpstreams:
                key = sorted(c.vpstreams)[z % len(c.vpstreams)]
                s = c.vpstreams[key]
                c.free_tr_stream(s.real)
                if key != "main":
                    s.free()
                    del c.vpstreams[key]
                mon.count("comp_frees")
            elif op == "close_db":
                db = x % len(reals)
                reals[db].close_db()
                for s in streams:
                    if s.db is models[db]:
                        s.free()
                mon.count("db_closes")
            elif op == "look":
                look()
        got = list(log)
        log.clear()
        mon.equal(got, expect, "hooks-" + op, "hooks and events of the step, in order", op=op)
        for t in trs:
            state(t, op)
    look()
    for real, model, path in zip(reals, models, paths):
        with Output():
            real.close_db()
        for s in streams:
            if s.db is model:
                s.free()
        read_back(mon, path, model.lines)
    look()


async def run_seq(case, mon, path):
    from cocotb.utils import get_sim_time
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_object_globals import UVM_ALL_ON, UVM_FULL, UVM_NONE
    from uvm.base.uvm_tr_database import UVMTextTrDatabase
    from uvm.macros import uvm_field_int, uvm_object_utils_begin, uvm_object_utils_end
    from uvm.seq.uvm_sequence import UVMSequence
    from uvm.seq.uvm_sequence_item import UVMSequenceItem
    from uvm.seq.uvm_sequencer import UVMSequencer
    from vp.monitor import Output
    from vp.tasks import spawn
    tag = next(_ids)
    await Timer(1, "NS")
    runs, items, n = [], [], itertools.count()

    def now():
        return float(get_sim_time("ns"))

    class RecItem(UVMSequenceItem):
        def __init__(self, name="item"):
            super().__init__(name)
            self.v = 0
    uvm_object_utils_begin(RecItem)
    uvm_field_int("v", UVM_ALL_ON)
    uvm_object_utils_end(RecItem)

    class RecSeq(UVMSequence):
        def __init__(self, name="seq"):
            super().__init__(name)
            self.v = 0

        async def body(self):
            spec = self.spec
            if spec["before"]:
                await Timer(spec["before"], "NS")
            for _ in range(spec["items"]):
                it = RecItem("i%d" % next(n))
                it.v = spec["v"] + 1
                it.owner = self.get_name()
                await self.start_item(it)
                await self.finish_item(it)
                items.append(it)
            tasks = []
            for k in spec["kids"]:
                if spec["par"]:
                    tasks.append(spawn(mon, one(k, self)))
                else:
                    await one(k, self)
            for t in tasks:
                await t
            if spec["after"]:
                await Timer(spec["after"], "NS")
            self.v = spec["v"] + 7
    uvm_object_utils_begin(RecSeq)
    uvm_field_int("v", UVM_ALL_ON)
    uvm_object_utils_end(RecSeq)

    with Output():
        db = UVMTextTrDatabase("db")
        db.set_file_name(path)
        sqr = UVMSequencer("c37s_%d" % tag, None)
        drv = UVMComponent("c37d_%d" % tag, None)
        for c in (sqr, drv):
            c.tr_database = db
            c.recording_detail = UVM_FULL if case["detail"] else UVM_NONE
    driven = []

    async def driver():
        while True:
            q = []
            await sqr.get_next_item(q)
            it = q[0]
            begun = now()
            h = drv.begin_tr(it) if case["drv"] else 0
            if case["drv"]:
                mon.equal(h != 0, case["detail"], "item-handle", "an item is recorded exactly when the component records")
                mon.check(it.is_active(), "item-active", "an item is active once it began")
            if case["item"]:
                await Timer(case["item"], "NS")
            if case["drv"]:
                drv.end_tr(it)
                mon.check(not it.is_active(), "item-inactive", "an item is not active once it ended")
            driven.append((it.get_name(), it.owner, it.v, begun, now()))
            sqr.item_done()

    async def one(spec, parent):
        s = RecSeq("q%d" % next(n))
        s.spec = spec
        s.v = spec["v"]
        t0 = now()
        await s.start(sqr, parent)
        runs.append((s.get_name(), parent.get_name() if parent is not None else None, spec["v"] + 7, t0, now()))
        mon.equal((float(s.get_begin_time()), float(s.get_end_time())), (t0, now()), "seq-times", "a sequence begins when it is started and ends when it is over")

    with Output():
        d = spawn(mon, driver())
        tasks = [spawn(mon, one(r, None)) for r in case["roots"]]
        for t in tasks:
            await t
        d.kill()
        db.close_db()
    want = {}
    for name, owner, v, t0, t1 in runs + (driven if case["drv"] else []):
        want[name] = (owner, v, t0, t1)
    if not case["detail"]:
        want = {}
    byh, got, owners = {}, {}, {}
    dead = set()
    for line in parse(open(path).read() if os.path.exists(path) else ""):
        mon.count("lines_" + line[0])
        if line[0] == "open":
            mon.check(line[4] not in got, "seq-once", "a run is recorded once", name=line[4])
            byh[line[2]] = line[4]
            got[line[4]] = {"open": line[5], "at": line[1], "kind": line[6]}
        elif line[0] in ("attr", "close", "free"):
            r = got.get(byh.get(line[2]))
            if not mon.check(r is not None and line[2] not in dead and (line[0] != "close" or "close" not in r), "seq-entry", "entries belong to records that are open", line=line):
                continue
            if line[0] == "attr":
                r[line[3]] = line[4]
            elif line[0] == "close":
                r["close"], r["closed_at"] = line[3], line[1]
            else:
                dead.add(line[2])
        elif line[0] == "link":
            mon.equal(line[4], "child", "seq-link", "records of sequences and items are linked to their parents")
            mon.check(line[2] not in dead and line[3] not in dead, "seq-link-dead", "links join records that are there")
            owners.setdefault(byh.get(line[3]), []).append(byh.get(line[2]))
        elif line[0] not in ("create_stream", "close_stream", "free_stream"):
            mon.violate("seq-line", "an entry that cannot be read", line=line)
    mon.equal(sorted(got), sorted(want), "seq-records", "one record for every sequence run and item")
    mon.equal(len(dead), len(got), "seq-freed", "every record is freed")
    for name, (owner, v, t0, t1) in want.items():
        r = got.get(name)
        if r is None:
            continue
        mon.equal((r["open"], r["at"]), (t0, t0), "seq-open", "recorded from its begin", name=name)
        mon.equal((r.get("close"), r.get("closed_at")), (t1, t1), "seq-close", "recorded to its end", name=name)
        mon.equal(r.get("v"), v, "seq-value", "recorded with its values at the end", name=name)
        mon.equal(owners.get(name, []), [owner] if owner else [], "seq-parent", "linked to its parent", name=name)
        mon.equal(r["kind"], "Begin_End, Link" if owner else "Begin_No_Parent, Link", "seq-kind", "kind of the record", name=name)
        mon.event("runs_recorded", t0, t1, owner)
        mon.count("runs_with_parent", 1 if owner else 0)
    if len(want) > 1:
        mon.nontrivial = True
