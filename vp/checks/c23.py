"""C23: which callbacks are called, in which order, against a model of the registrations.

Each case has objects of several (derived) types and callbacks of several (derived) classes. Random steps register callbacks
for objects and for all objects (front or back), enable and disable them, create further objects, and run them through the
macros (plain, async, exit-on) and the iterators in both directions; callbacks act themselves (disable others, append
others, run other objects' callbacks). The recorded calls are compared with a model."""
import itertools

SIM = False
BATCH = 50
CASES = {"quick": 3000, "thorough": 60000}
TECHNIQUE = "runtime monitoring: recorded calls of callbacks of random registration histories checked against a model of the queues"
LEVEL_NOTE = "Random registration and execution histories on the real callback classes and macros; exploration, no claim beyond what ran."
RULE = "2-8 objects, 2-8 callbacks, 20-60 steps; non-trivial: two callbacks were called in one run; distinct: hash of the calls"
REQUIRE = {"runs": 20000, "calls": 25000, "async_runs": 5000, "exit_runs": 5000, "exits_taken": 1500, "iterations": 8000, "typewide": 3000, "typewide_late": 1500,
           "typed_runs_filtered": 4000, "disabled_skipped": 5000, "prepended": 4000, "duplicates": 2000, "same_name": 300, "nested_runs": 1200,
           "changed_while_running": 400, "new_objects": 1500, "null": 200}
ASSUMPTIONS = []
_ids = itertools.count()


def gen(rng, tier):
    ncb = rng.randint(2, 8)
    cbs = []
    for k in range(ncb):
        acts = []
        if rng.random() < .5:
            acts.append(rng.choice([["mode", rng.randrange(ncb), rng.randint(0, 1)], ["append", rng.randint(0, 9), rng.randrange(ncb)], ["run", rng.randint(0, 9)]]))
        cbs.append([rng.randint(0, 3), f"n{rng.randint(0, 3)}" if rng.random() < .3 else f"cb{k}", rng.randint(0, 1), acts])
    steps = []
    for _ in range(rng.randint(20, 40 if tier == "quick" else 70)):
        r = rng.random()
        o, c = rng.randint(0, 9), rng.randrange(ncb)
        if r < .28:
            steps.append(["add", o if rng.random() < .7 else None, c, rng.random() < .4, rng.randint(0, 2)])
        elif r < .38:
            steps.append(["mode", c, rng.randint(0, 1)])
        elif r < .43:
            steps.append(["new", rng.randint(0, 3)])
        elif r < .44:
            steps.append(["null", o if rng.random() < .5 else None])
        elif r < .6:
            steps.append(["run", o, rng.choice([0, 0, 1, 2, 3]), rng.randint(0, 1)])
        elif r < .72:
            steps.append(["async", o, rng.choice([0, 0, 1, 2, 3]), rng.randint(0, 1)])
        elif r < .84:
            steps.append(["exit", o, rng.choice([0, 0, 1, 2, 3]), rng.randint(0, 1), rng.randint(0, 1)])
        else:
            steps.append(["iter", o, rng.choice([None, 0, 1, 2, 3]), [rng.choice("nnnpfl") for _ in range(rng.randint(1, 8))]])
    return {"cbs": cbs, "steps": steps, "objs": [rng.randint(0, 3) for _ in range(rng.randint(2, 5))], "tracing": rng.random() < .08}


def setup():
    import uvm  # noqa
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    with Output():
        UVMCoreService.get().get_root()
        types()


_types = None


def types():
    global _types
    if _types is None:
        from uvm.base.uvm_callback import UVMCallback, UVMCallbacks
        from uvm.base.uvm_object import UVMObject
        from uvm.base.uvm_component import UVMComponent
        from uvm.macros.uvm_callback_defines import uvm_register_cb

        class A(UVMObject):
            pass

        class B(A):
            pass

        class C(UVMComponent):
            def __init__(self, name):
                super().__init__(name, None)

        class D(UVMObject):                  # never registered with a callback class
            pass

        class Cb0(UVMCallback):
            def __init__(self, k, name, case):
                super().__init__(name)
                self.k, self.case = k, case

            def plain(self, *args):
                self.case.called(self, "plain", args)

            async def slow(self, *args):
                self.case.called(self, "slow", args)

            def answer(self, *args):
                self.case.called(self, "answer", args)
                return self.case.case["cbs"][self.k][2]

        class Cb1(Cb0):
            pass

        class Cb2(Cb1):
            pass

        class Cb3(Cb0):
            pass

        class Typed(UVMCallbacks):           # a typedef of the callbacks class, as users make
            pass

        class Typed2(UVMCallbacks):
            m_inst = None
        for t, c in ((A, Cb0), (A, Cb1), (B, Cb0), (C, Cb0), (C, Cb3)):
            uvm_register_cb(t, c)
        _types = [A, B, C, D], [Cb0, Cb1, Cb2, Cb3], [UVMCallbacks, Typed, Typed2]
    return _types


ISA = {0: {0, 1, 2, 3}, 1: {1, 2}, 2: {2}, 3: {3}, None: {0, 1, 2, 3}}


def clean():
    from uvm.base.uvm_callback import UVMCallbacks, UVMTypedCallbacks
    UVMCallbacks.get()
    for cls in types()[2]:
        cls.get()
        cls.m_base_inst.m_pool.delete()
        del cls.m_base_inst.m_tw_cb_q[:]
    del UVMTypedCallbacks.m_t_inst.m_tw_cb_q[:]


def run(case, mon):
    from uvm.base.uvm_callback import UVMCallbacksBase
    from vp.monitor import Output
    UVMCallbacksBase.m_tracing = case["tracing"]
    with Output() as out:
        clean()
        try:
            Case(case, mon, out).go()
        finally:
            clean()
            UVMCallbacksBase.m_tracing = False
    mon.nontrivial = mon.counters.get("long_runs", 0) > 0


class Case:
    def __init__(self, case, mon, out):
        self.case, self.mon, self.out = case, mon, out
        self.calls = []
        self.typewide, self.own = [], {}
        self.depth = 0

    def go(self):
        T, CB, _ = types()
        self.objs = []
        for t in self.case["objs"]:
            self.do_new(t)
        self.cbs = [CB[c](k, name, self) for k, (c, name, _, _) in enumerate(self.case["cbs"])]
        self.enabled = [True] * len(self.cbs)
        for i, st in enumerate(self.case["steps"]):
            getattr(self, "do_" + st[0])(*st[1:])
            self.mon.count("steps")

    def obj(self, o):
        return self.objs[o % len(self.objs)]

    def queue(self, o):
        return self.own.get(o % len(self.objs), self.typewide)

    # ---- actions of the callbacks (real) and their model -----------------------------------------
    def called(self, cb, method, args):
        self.calls.append([cb.k, method, list(args)])
        self.mon.event("call", cb.k, method)
        if self.depth < 2:
            for a in self.case["cbs"][cb.k][3]:
                if a[0] == "mode":
                    self.cbs[a[1]].callback_mode(a[2])
                elif a[0] == "append":
                    types()[2][0].add(self.obj(a[1]), self.cbs[a[2]])
                else:
                    from uvm.macros.uvm_callback_defines import uvm_do_callbacks
                    self.depth += 1
                    uvm_do_callbacks(self.obj(a[1]), types()[1][0], "plain", "nested")
                    self.depth -= 1

    def expect(self, o, cls, method, args, stop=None, depth=0):
        """Models one run on the current state, and changes it as the callbacks do"""
        res, i, q = [], 0, self.queue(o)
        n0 = len(q)
        while i < len(q):
            k = q[i]
            i += 1
            if self.case["cbs"][k][0] not in ISA[cls]:
                self.mon.count("typed_runs_filtered")
                continue
            if not self.enabled[k]:
                self.mon.count("disabled_skipped")
                continue
            self.mon.count("changed_while_running", i > n0)
            res.append([k, method, list(args)])
            if depth < 2:
                for a in self.case["cbs"][k][3]:
                    if a[0] == "mode":
                        self.mon.count("changed_while_running", self.enabled[a[1]] != bool(a[2]))
                        self.enabled[a[1]] = bool(a[2])
                    elif a[0] == "append":
                        self.add_model(a[1] % len(self.objs), a[2], False)
                        q = self.queue(o)
                    else:
                        self.mon.count("nested_runs")
                        res += self.expect(a[1] % len(self.objs), 0, "plain", ["nested"], None, depth + 1)
                        q = self.queue(o)
            if stop is not None and self.case["cbs"][k][2] == stop:
                return res
        return res

    def add_model(self, o, c, prepend):
        """Returns how a registration goes: True, or the id of the warning"""
        name = self.case["cbs"][c][1]

        def put(q):
            if c not in q:
                q.insert(0 if prepend else len(q), c)
        q = self.typewide if o is None else self.own.setdefault(o, list(self.typewide))
        if c in q:
            return "CBPREG"
        same = any(self.case["cbs"][x][1] == name for x in q)
        put(q)
        if o is None:
            for oq in self.own.values():
                same |= any(x != c and self.case["cbs"][x][1] == name for x in oq) and c not in oq
                put(oq)
        return "UVM/CB/NAM/SAM" if same else True

    # ---- steps -----------------------------------------------------------------------------------
    def do_new(self, t):
        self.objs.append(types()[0][t](f"o{next(_ids)}"))
        self.own = dict(self.own)
        self.mon.count("new_objects")

    def do_add(self, o, c, prepend, which):
        from uvm.base.uvm_misc import UVM_APPEND, UVM_PREPEND
        mon = self.mon
        o = None if o is None else o % len(self.objs)
        self.out.take()
        late = o is None and bool(self.own)
        types()[2][which].add(None if o is None else self.objs[o], self.cbs[c], UVM_PREPEND if prepend else UVM_APPEND)
        reps = [r[1] for r in self.out.take()[0] if r[1] != "UVMCB_TRC"]
        res = self.add_model(o, c, prepend)
        mon.count("duplicates", res == "CBPREG")
        mon.count("same_name", res == "UVM/CB/NAM/SAM")
        if res is True:
            mon.equal(reps, [], "reports of a registration")
        else:
            mon.check(res in reps and set(reps) == {res}, "reports of a doubtful registration", got=reps, want=res)
        if res != "CBPREG":
            mon.count("prepended", prepend)
            mon.count("typewide", o is None)
            mon.count("typewide_late", late)

    def do_null(self, o):
        self.out.take()
        types()[2][0].add(None if o is None else self.obj(o), None)
        self.mon.equal([r[1] for r in self.out.take()[0]], ["CBUNREG"], "reports of registering no callback")
        self.mon.count("null")

    def do_mode(self, c, on):
        cb = self.cbs[c]
        self.mon.equal([cb.callback_mode(), cb.is_enabled()], [self.enabled[c]] * 2, "callback_mode")
        self.mon.equal(cb.callback_mode(on), self.enabled[c], "value of callback_mode when set")
        self.enabled[c] = bool(on)
        self.mon.equal(cb.is_enabled(), bool(on), "is_enabled")

    def check_run(self, kind, o, cls, method, args, stop, do):
        mon = self.mon
        del self.calls[:]
        before = list(self.queue(o))
        got = do(self.obj(o), types()[1][cls])
        calls = list(self.calls)
        want = self.expect(o % len(self.objs), cls, method, args, stop)
        mon.count("runs")
        mon.count("calls", len(calls))
        mon.count("long_runs", len(calls) > 1)
        mon.check(calls == want, f"calls of the callbacks ({kind})", got=calls, want=want, queue=before, cls=cls, typewide=list(self.typewide), enabled=self.enabled)
        return got, calls, want

    def do_run(self, o, cls, how):
        from uvm.macros.uvm_callback_defines import uvm_do_callbacks, uvm_do_obj_callbacks
        arg = object()
        f = uvm_do_callbacks if how else uvm_do_obj_callbacks
        got, calls, _ = self.check_run("uvm_do_callbacks", o, cls, "plain", [1, arg], None, lambda x, c: f(x, c, "plain", 1, arg))

    def do_async(self, o, cls, how):
        from uvm.macros.uvm_callback_defines import uvm_do_callbacks_async, uvm_do_obj_callbacks_async
        from vp.drive import run_now
        f = uvm_do_callbacks_async if how else uvm_do_obj_callbacks_async
        self.mon.count("async_runs")
        self.check_run("async", o, cls, "slow", ["x"], None, lambda x, c: run_now(f(x, c, "slow", "x")))

    def do_exit(self, o, cls, val, how):
        from uvm.macros.uvm_callback_defines import uvm_do_callbacks_exit_on, uvm_do_obj_callbacks_exit_on
        f = uvm_do_callbacks_exit_on if how else uvm_do_obj_callbacks_exit_on
        self.mon.count("exit_runs")
        got, calls, want = self.check_run("exit_on", o, cls, "answer", [self], val, lambda x, c: f(x, c, "answer", val, self))
        mine = [c for c in want if c[1] == "answer"]
        stopped = any(self.case["cbs"][c[0]][2] == val for c in mine)
        self.mon.count("exits_taken", stopped)
        self.mon.equal(got, val if stopped else 1 - val, "value of the exit_on macro")

    def do_iter(self, o, cls, moves):
        from uvm.base.uvm_callback import UVMCallbackIter
        mon = self.mon
        it = UVMCallbackIter(self.obj(o), None if cls is None else types()[1][cls])
        q = [k for k in self.queue(o) if self.case["cbs"][k][0] in ISA[cls] and self.enabled[k]]
        mon.count("iterations")
        mon.equal(it.get_cb(), None, "get_cb of a new iterator")
        pos, trace = None, []
        for m in ["l" if moves[0] in "pl" else "f"] + moves:
            if m in "fl":
                cb = it.first() if m == "f" else it.last()
                pos = (0 if m == "f" else len(q) - 1) if q else None
            elif pos is None:
                continue
            else:
                cb = it.next() if m == "n" else it.prev()
                pos += 1 if m == "n" else -1
                if not 0 <= pos < len(q):
                    pos = None
            want = None if pos is None else q[pos]
            trace.append([m, cb and cb.k])
            mon.check((cb and cb.k) == want and it.get_cb() is cb, "callback an iterator returns", trace=trace, want=want, queue=q)
            mon.event("iter", m, want)
