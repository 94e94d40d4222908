"""C31: FIFO registers and indirect registers, against queues and tables kept by simulated hardware.

Each case has one kind. FIFO registers are set, updated, written, read, predicted and compared with a queue; tables behind an
index and a data register are accessed by several tasks at a time, and every bus access is logged and compared."""
import itertools

from cocotb.triggers import Timer

SIM = True
BATCH = 10
CASES = {"quick": 900, "thorough": 14000}
TECHNIQUE = "runtime monitoring: bus log, results, mirrors and reports of random histories on FIFO and indirect registers, against a queue and a table"
LEVEL_NOTE = "Random histories and schedules on the real register classes; exploration, no claim beyond what ran."
RULE = ("FIFOs of 1-8 values of 1-64 bits with 10-40 operations; tables of 1-12 registers with 1-3 tasks of 3-9 operations; non-trivial: at least two operations "
        "reached the bus; distinct: hash of the bus traffic")
REQUIRE = {"writes": 700, "reads": 900, "write_full": 600, "read_empty": 400, "sets": 500, "updated": 500, "set_full": 800, "write_pending": 30, "mismatches": 50, "errors": 90,
           "predicts": 100, "wide_fifo": 35, "explicit_fifo": 45, "explicit_table": 45, "two_maps": 40, "overlapping": 700, "index_errors": 90, "data_errors": 100,
           "write": 500, "read": 500, "index_write": 35, "data_read": 110, "data_write": 110, "block_updates": 20, "block_mirrors": 20}
ASSUMPTIONS = ["FIFO registers are updated after they are set before anything else is done with them, as their documentation asks."]
_ids = itertools.count()


def gen(rng, tier):
    from vp.regmodel import ONCE, POLICIES
    c = {"kind": rng.choice(["fifo", "indirect"]), "bus": rng.choice([1, 2, 4, 8]), "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]),
         "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)], "predict": rng.choice(["auto", "auto", "explicit"]), "responses": rng.random() < .25}
    if c["kind"] == "fifo":
        c["bits"] = bits = rng.choice([1, 8, 8, 16, 32, 64])
        c["size"] = rng.choice([1, 2, 3, 4, 8])
        c["compare"] = rng.random() < .7
        lean = rng.choice([.3, .5, .7])
        ops = []
        for _ in range(rng.randint(10, 40)):
            r = rng.random()
            v = rng.getrandbits(bits)
            if r < .15:
                ops.append(["set", [rng.getrandbits(bits + (rng.random() < .1)) for _ in range(rng.randint(1, 4))], rng.random() < .1, v])
            elif r < .2:
                ops.append(["update"])
            elif r < .25:
                ops.append(["predict", v])
            elif r < .29:
                ops.append(["tamper", v])
            elif r < .33:
                ops.append(["fail", rng.random() < .5, v])
            else:
                ops.append(["write", v] if rng.random() < lean else ["read"])
        c["ops"] = ops
        return c
    n = rng.choice([1, 2, 3, 5, 12])
    bits = rng.choice([8, 16, 32, 64])
    pols = [p for p in POLICIES if p not in ONCE]
    c.update(bits=bits, ibits=rng.choice([4, 8, 8, 32]), two=rng.random() < .3, known=rng.random() < .15)
    c["table"] = []
    for _ in range(n):
        b = rng.choice([bits, bits, rng.randint(1, bits)])
        cuts = sorted(rng.sample(range(1, b), min(rng.choice([0, 1, 3]), b - 1)))
        c["table"].append({"bits": b, "fields": [[x, y - x, rng.choice(["RW", "RW", "RW"] + pols)] for x, y in zip([0] + cuts, cuts + [b])], "reset": rng.getrandbits(b)})
    tasks = []
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = []
        for _ in range(rng.randint(3, 9)):
            r = rng.random()
            v = rng.getrandbits(bits)
            via = c["two"] and rng.random() < .4
            if r < .7:
                ops.append([rng.choice(["write", "read"]), rng.randrange(n), v, via])
            elif r < .85:
                ops.append([rng.choice(["data_write", "data_read"]), -1, v, via])
            else:
                ops.append([rng.choice(["index_write", "index_read"]), rng.randrange(n + (rng.random() < .2)), 0, via])
            if rng.random() < .1:
                ops.append(["delay", 0, rng.choice([1, 3]), False])
        tasks.append(ops)
    if len(tasks) > 1:          # what a data register reaches while the index is being written is open
        tasks = [[o for o in ops if o[0] != "index_write"] for ops in tasks]
    c["tasks"] = tasks
    c["fail"] = rng.choice(["", "", "", "", "index", "data"])
    c["block"] = rng.choice(["", "", "", "update", "mirror"])
    if c["block"]:
        c["fail"] = ""
        for t in c["table"]:
            for f in t["fields"]:
                f[2] = "RW"
    return c


async def run(case, mon):
    await (fifo if case["kind"] == "fifo" else indirect)(case, mon)


class HwFifo:
    """a queue behind one or several bus words: written at the last, read at the first"""

    def __init__(self, size, bits):
        self.size, self.bits, self.q, self.part, self.out = size, bits, [], 0, 0

    def access(self, write, mask, data):
        last = mask >> self.bits or not (mask << 1) & ~mask & ((1 << self.bits) - 1)
        low = bool(mask & 1)
        top = bool(mask >> (self.bits - 1) & 1)
        if write:
            self.part |= data & mask
            self.seen = getattr(self, "seen", 0) | mask
            if self.seen & ((1 << self.bits) - 1) == (1 << self.bits) - 1:
                if len(self.q) < self.size:
                    self.q.append(self.part & ((1 << self.bits) - 1))
                self.part = self.seen = 0
            return 0
        if not getattr(self, "reading", 0):
            self.out = self.q.pop(0) if self.q else 0
        self.reading = getattr(self, "reading", 0) | mask
        if self.reading & ((1 << self.bits) - 1) == (1 << self.bits) - 1:
            self.reading = 0
        return self.out & mask


def explicit(sys, mon, tag, maps, rm):
    """a predictor for each map instead of automatic prediction"""
    from uvm.reg.uvm_reg_predictor import UVMRegPredictor
    preds = []
    for i, (m, base) in enumerate(maps):
        p = UVMRegPredictor(f"pred{tag}_{i}", None)
        p.map, p.adapter = m, sys.Adapter("a")
        for port in (p.bus_in, p.reg_ap):
            port.resolve_bindings()
        m.set_auto_predict(False)
        preds.append((base, p))
    real = sys.serve

    def serve(f):
        data, ok = real(f)
        if ok:
            it = sys.BusItem("seen")
            it.f = dict(f, data=f["data"] if f["write"] else data, status=True)
            [p for base, p in preds if base <= f["addr"]][-1].bus_in.write(it)
        return data, ok
    sys.serve = serve


async def fifo(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_fifo import UVMRegFIFO
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import System
    tag = next(_ids)
    bits, size = case["bits"], case["size"]
    with Output() as out:
        sys = System(mon, tag, case["delays"], case["responses"])
        await Timer(1, "NS")
        out.take()
        blk = UVMRegBlock(f"fblk{tag}")
        blk.configure()
        mp = blk.create_map("map", 0, case["bus"], getattr(rm, case["endian"]), True)
        blk.set_default_map(mp)
        reg = UVMRegFIFO("fifo", size, bits, rm.UVM_NO_COVERAGE)
        reg.configure(blk)
        reg.build()
        mp.add_reg(reg, 0x10, "RW")
        blk.lock_model()
        mp.set_sequencer(sys.sqr, sys.adapter)
        mp.set_auto_predict(True)
        mp.set_check_on_read(False)
        reg.set_compare(rm.UVM_CHECK if case["compare"] else rm.UVM_NO_CHECK)
        if case["predict"] == "explicit":
            explicit(sys, mon, tag, [(mp, 0)], rm)
        hw = HwFifo(size, bits)
        bm = Model({"byte": True, "maps": [{"base": 0, "up": None, "off": 0, "endian": case["endian"], "bus": case["bus"]}]})
        addrs = bm.addrs(0, 0x10, (bits + 7) // 8)
        w = case["bus"]
        for i, a in enumerate(addrs):
            sys.decode[a] = (hw, 8 * w * i, w)
        q = []
        traffic = []
        reached = 0
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")

        def bus_of(write, vals):
            res = []
            for v in vals:
                for i, a in enumerate(addrs):
                    res.append(("write" if write else "read", a, v >> (8 * w * i) & ((1 << 8 * w) - 1)))
            return res

        async def do(op, *args):
            """an operation; returns (status, value, errors, warnings, bus log)"""
            st, val = [], []
            if op == "write":
                await reg.write(st, args[0], rm.UVM_FRONTDOOR)
            elif op == "read":
                await reg.read(st, val, rm.UVM_FRONTDOOR)
            else:
                await reg.update(st, rm.UVM_FRONTDOOR)
            log = sys.take()
            traffic.extend(e[:3] for e in log)
            for e in log:
                mon.event(e[0], e[:3])
            reps, _ = out.take()
            return st, val, [r for r in reps if r[0] == "UVM_ERROR"], [r for r in reps if r[0] == "UVM_WARNING"], log

        async def checked_write(v):
            nonlocal reached
            full = len(q) == size
            st, _, err, warn, log = await do("write", v)
            mon.count("write_full" if full else "writes")
            mon.equal(st, [rm.UVM_NOT_OK if full else rm.UVM_IS_OK], "write_status", "status of a FIFO write", depth=len(q), size=size)
            mon.equal([e[:3] for e in log], [] if full else bus_of(True, [v]), "write_bus", "bus accesses of a FIFO write")
            mon.equal((len(err), len(warn)), (int(full), 0), "write_reports", "reports of a FIFO write", reports=[r[2] for r in err + warn])
            if not full:
                q.append(v)
                reached += 1
        for op in case["ops"]:
            kind = op[0]
            if kind == "write":
                await checked_write(op[1])
            elif kind == "read":
                empty = not q
                st, val, err, warn, log = await do("read")
                mon.count("read_empty" if empty else "reads")
                mon.equal(st, [rm.UVM_NOT_OK if empty else rm.UVM_IS_OK], "read_status", "status of a FIFO read", depth=len(q))
                if empty:
                    mon.equal(log, [], "read_bus", "bus accesses of a read of an empty FIFO")
                else:
                    reached += 1
                    got = hw.out
                    want = q.pop(0)
                    mon.equal([e[:3] for e in log], bus_of(False, [got]), "read_bus", "bus accesses of a FIFO read")
                    mon.equal(val, [got], "read_value", "value of a FIFO read")
                    bad = case["compare"] and want != got
                    mon.count("mismatches", bad)
                    mon.count("unchecked", want != got and not bad)
                    mon.equal([r[1] for r in warn], ["MIRROR_MISMATCH"] * bad, "mismatch", "warnings of a FIFO read", read=got, expected=want)
                mon.equal(err, [], "read_reports", "errors of a FIFO read")
            elif kind == "set":
                mon.count("sets")
                new = []
                for v in op[1]:
                    reg.set(v)
                    if len(q) + len(new) < size:
                        new.append(v & ((1 << bits) - 1))
                    else:
                        mon.count("set_full")
                out.take()
                q += new
                mon.equal((list(reg.fifo), reg.size()), (q, len(q)), "contents", "values in the FIFO after set")
                if op[2] and new:
                    mon.count("write_pending")
                    st, _, err, _, log = await do("write", op[3])
                    mon.equal((st, len(err), log), ([rm.UVM_NOT_OK], 1, []), "write_pending", "a write between set and update")
                st, _, err, warn, log = await do("update")
                mon.count("updates")
                mon.count("updated", len(new))
                reached += len(new)
                mon.equal([e[:3] for e in log], bus_of(True, new), "update_bus", "bus accesses of updating a FIFO")
                mon.equal((st, err, warn), ([rm.UVM_IS_OK], [], []), "update_status", "status and reports of updating a FIFO")
            elif kind == "update":
                mon.count("idle_updates")
                mon.equal(await do("update"), ([rm.UVM_IS_OK], [], [], [], []), "update_idle", "updating a FIFO that needs no update")
            elif kind == "predict":
                full = len(q) == size
                if full and hw.q == q:
                    continue
                mon.count("predicts")
                reg.predict(op[1])
                out.take()
                if not full:
                    q.append(op[1])
                    if len(hw.q) < size:
                        hw.q.append(op[1])
            elif kind == "tamper":
                if hw.q:
                    hw.q[0] = op[1]
            else:
                if op[1] and q or not op[1] and len(q) < size:
                    mon.count("errors")
                    sys.fail = set(addrs)
                    st, _, err, warn, log = await do("read") if op[1] else await do("write", op[2])
                    sys.fail = set()
                    mon.equal(st, [rm.UVM_NOT_OK], "error_status", "status of a FIFO access that fails on the bus")
                    mon.equal(len(log), 1, "error_bus", "bus accesses of a FIFO access that fails on the bus")
            mon.equal((list(reg.fifo), reg.size(), reg.capacity()), (q, len(q), size), "contents", f"values in the FIFO after {kind}")
            mon.equal(reg.get(), q[0] if q else 0, "get", "value at the front of a FIFO")
            if not any(o[0] == "tamper" for o in case["ops"]):
                mon.equal(hw.q, q, "hardware", f"values in the hardware after {kind}")
        mon.count("explicit_fifo", case["predict"] == "explicit")
        mon.count("wide_fifo", len(addrs) > 1)
        sys.task.kill()
    mon.distinct = hash(tuple(traffic))
    mon.nontrivial = reached > 1


class Behind:
    """the data register: whatever the index register points at"""

    def __init__(self, index, table):
        self.index, self.table = index, table

    def access(self, write, mask, data):
        i = self.index.value
        if i >= len(self.table):
            return 0
        return self.table[i].access(write, mask, data)


async def indirect(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.base.uvm_object import UVMObject
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_indirect import UVMRegIndirectData
    from vp.checks.c25 import FieldModel
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import HwReg, System
    from vp.tasks import spawn
    tag = next(_ids)

    class Tag(UVMObject):
        def __init__(self, op):
            super().__init__("tag")
            self.op = op
    with Output() as out:
        sys = System(mon, tag, case["delays"], case["responses"])
        await Timer(1, "NS")
        out.take()
        blk = UVMRegBlock(f"iblk{tag}")
        blk.configure()
        bases = [0, 0x100000][:1 + case["two"]]
        maps = [blk.create_map(f"map{i}", b, case["bus"], getattr(rm, case["endian"]), True) for i, b in enumerate(bases)]
        blk.set_default_map(maps[0])

        class Index(UVMReg):
            def build(self):
                f = UVMRegField("value")
                f.configure(self, case["ibits"], 0, "RW", False, 0, True, True, False)
        index = Index("index", case["ibits"])
        index.configure(blk)
        index.build()
        table, models, hws = [], [], []
        for i, spec in enumerate(case["table"]):
            r = UVMReg(f"t{i}", spec["bits"])
            r.configure(blk)
            fms = []
            for j, (lsb, n, pol) in enumerate(spec["fields"]):
                f = UVMRegField(f"f{j}")
                rst = spec["reset"] >> lsb & ((1 << n) - 1)
                f.configure(r, n, lsb, pol, False, rst, True, True, False)
                fm = FieldModel({"policy": pol, "size": n, "vol": False, "reset": {"HARD": rst}, "lsb": lsb})
                fm.put(rst)
                fms.append(fm)
            if case["known"]:
                for m in maps:
                    m.add_reg(r, -1, "RW", True)
            table.append(r)
            models.append(fms)
            hws.append(HwReg([tuple(f) for f in spec["fields"]], spec["reset"]))
        data = UVMRegIndirectData("data", case["bits"])
        data.configure(index, table, blk)
        for m in maps:
            m.add_reg(index, 0x100, "RW")
            m.add_reg(data, 0x200, "RW")
        blk.lock_model()
        blk.reset()
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")
        for m in maps:
            m.set_sequencer(sys.sqr, sys.adapter)
            m.set_auto_predict(True)
            m.set_check_on_read(False)
        if case["predict"] == "explicit":
            explicit(sys, mon, tag, list(zip(maps, bases)), rm)
        ihw = HwReg([(0, case["ibits"], "RW")])
        dhw = Behind(ihw, hws)
        w = case["bus"]
        where = []
        for b in bases:
            bm = Model({"byte": True, "maps": [{"base": b, "up": None, "off": 0, "endian": case["endian"], "bus": w}]})
            ia, da = bm.addrs(0, 0x100, (case["ibits"] + 7) // 8), bm.addrs(0, 0x200, case["bits"] // 8)
            where.append((ia, da))
            for hw, aa in ((ihw, ia), (dhw, da)):
                for i, a in enumerate(aa):
                    sys.decode[a] = (hw, 8 * w * i, w)
            if case["fail"]:
                sys.fail |= set(ia if case["fail"] == "index" else da)
        log = []
        real = sys.serve

        def serve(f):
            r = real(f)
            e = sys.log[-1]
            log.append((f["ext"].op if f["ext"] is not None else None, *e[:3], e[5]))
            mon.event(e[0], e[:3])
            return r
        sys.serve = serve
        ops, done = [], []
        flying = [0]

        async def task(lst):
            for o in lst:
                if o[0] == "delay":
                    await Timer(o[2], "NS")
                    continue
                n = len(ops)
                rec = {"op": o[0], "at": o[1], "v": o[2], "via": int(o[3]), "status": [], "got": []}
                ops.append(rec)
                mp, t = maps[rec["via"]], Tag(n)
                reg = table[o[1]] if o[0] in ("write", "read") else data if "data" in o[0] else index
                v = o[1] if o[0] == "index_write" else o[2]
                mon.count("overlapping", flying[0] > 0)
                flying[0] += 1
                if "write" in o[0]:
                    await reg.write(rec["status"], v, rm.UVM_FRONTDOOR, mp, None, -1, t)
                else:
                    await reg.read(rec["status"], rec["got"], rm.UVM_FRONTDOOR, mp, None, -1, t)
                flying[0] -= 1
                done.append(n)
                mon.count(o[0])
        running = [spawn(mon, task(lst)) for lst in case["tasks"]]
        for t in running:
            await t.join()
        reps, _ = out.take()
        mon.equal(len(done), sum(o[0] != "delay" for lst in case["tasks"] for o in lst), "finished", "operations that returned")
        # replay in the order of the first bus access of each operation
        order = []
        for e in log:
            if e[0] not in order:
                order.append(e[0])
        mon.check(None not in order, "tagged", lambda: f"a bus access has lost the extension of its operation: {log[:6]}")
        mon.equal(sorted(order), sorted(done), "reached", "operations that reached the bus")
        cur = 0
        ifail, dfail = case["fail"] == "index", case["fail"] == "data"
        errors = 0
        wm = (1 << 8 * w) - 1
        spans = {}
        for i, e in enumerate(log):
            spans.setdefault(e[0], []).append(i)
        for n in order:
            if n is None:
                continue
            o = ops[n]
            ia, da = where[o["via"]]
            want, ok = [], True
            on_table = o["op"] in ("write", "read")
            if on_table or o["op"] == "index_write":
                for i, a in enumerate(ia):
                    want.append(("write", a, o["at"] >> (8 * w * i) & wm, not ifail))
                    if ifail:
                        ok = False
                        break
                if ok:
                    cur = o["at"]
            got = None
            if ok and o["op"] != "index_write":
                write = "write" in o["op"]
                aa = ia if o["op"] == "index_read" else da
                bad = ifail if o["op"] == "index_read" else dfail
                if o["op"] == "index_read":
                    val, fms = cur, None
                else:
                    fms = models[cur] if cur < len(models) else []
                    if write:
                        val = o["v"] & ((1 << (table[o["at"]].get_n_bits() if on_table else case["bits"])) - 1)
                    else:
                        from vp.regmodel import WRITE_ONLY
                        val = sum(f.mirrored << f.spec["lsb"] for f in fms if f.policy not in WRITE_ONLY)
                for i, a in enumerate(aa):
                    want.append(("write" if write else "read", a, val >> (8 * w * i) & wm if not bad or write else 0xDEADBEEF, not bad))
                    if bad:
                        ok = False
                        break
                if ok and fms is not None:
                    for f in fms:
                        (f.write if write else f.read)(val >> f.spec["lsb"])
                    if not fms and case["predict"] == "auto":
                        mon.count("beyond")
                        errors += 1
                got = val
            seen = [log[i][1:] for i in spans[n]]
            mon.equal(seen, want, "trace", f"bus accesses of a {o['op']}", op=o, bits=case["bits"], bus=w)
            mon.count("index_errors", ifail and on_table)
            mon.count("data_errors", dfail and on_table)
            out_of = ok and "data" in o["op"] and cur >= len(models)
            if not out_of:
                mon.equal(o["status"], [rm.UVM_IS_OK if ok else rm.UVM_NOT_OK], "status", f"status of a {o['op']}", op=o)
            if ok and "read" in o["op"]:
                if on_table:
                    got &= (1 << table[o["at"]].get_n_bits()) - 1
                mon.equal(o["got"], [got], "read_value", f"value of a {o['op']}", op=o)
            if on_table:
                lo, hi = spans[n][0], spans[n][-1]
                mon.equal([log[i][0] for i in range(lo, hi + 1)], [n] * (hi - lo + 1), "mixed", "bus accesses between selecting a register of a table and accessing it")
        if not case["fail"]:
            for i, r in enumerate(table):
                mon.equal((r.get_mirrored_value(), hws[i].value), (sum(f.mirrored << f.spec["lsb"] for f in models[i]),) * 2, "mirror",
                          f"mirror and hardware value of register {i} of a table", reg=case["table"][i], predict=case["predict"])
            mon.equal((index.get_mirrored_value(), ihw.value), (cur, cur), "index", "mirror and hardware value of the index register")
        if case["predict"] == "auto" and not case["fail"]:
            errs = [x for x in reps if x[0] == "UVM_ERROR"]
            mon.equal(len(errs), errors, "reports", "errors reported: one for each access beyond the table", errors=[x[2] for x in errs][:3])
        for r in table + [index, data]:
            mon.check(not r.is_busy(), "busy", "a register is busy when no access is in flight")
        # the whole block
        if case["block"] and not case["fail"] and not any(f.policy != "RW" for fms in models for f in fms):
            log.clear()
            st = []
            for i, r in enumerate(table):
                if case["block"] == "update":
                    r.set(case["table"][i]["reset"] ^ 1)
                else:
                    hws[i].value = case["table"][i]["reset"] ^ 1
            need = [r.needs_update() for r in table]
            if case["block"] == "update":
                mon.count("block_updates")
                await blk.update(st, rm.UVM_FRONTDOOR)
                mon.equal(sum(e[1] == "write" and e[2] in where[0][1] for e in log), sum(need) * len(where[0][1]), "block_bus", "data accesses of updating a block with a table")
            else:
                mon.count("block_mirrors")
                await blk.mirror(st, rm.UVM_NO_CHECK, rm.UVM_FRONTDOOR)
                mon.equal(sum(e[1] == "read" and e[2] in where[0][1] for e in log), len(table) * len(where[0][1]), "block_bus", "data accesses of mirroring a block with a table")
            mon.equal(st, [rm.UVM_IS_OK], "block_status", f"status of {case['block']} of a block with a table")
            for i, r in enumerate(table):
                v = case["table"][i]["reset"] ^ 1
                mon.equal((r.get_mirrored_value(), hws[i].value), (v, v), "block_values", "mirror and hardware of a table after its block")
        mon.count("explicit_table", case["predict"] == "explicit")
        mon.count("two_maps", case["two"])
        sys.task.kill()
    mon.distinct = hash(tuple(log))
    mon.nontrivial = len(order) > 1
