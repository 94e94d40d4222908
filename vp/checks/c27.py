"""C27: frontdoor accesses of registers, alone and at the same time, with hooks, callbacks, refusals and bus errors.

One log per case records the hooks, the callbacks and the bus accesses of every operation, each tagged with its operation
by the extension it was given; the log, the results, the hardware and the mirror are compared with what the maps prescribe."""
import itertools

from cocotb.triggers import Timer

SIM = True
BATCH = 10
CASES = {"quick": 700, "thorough": 12000}
TECHNIQUE = "runtime monitoring: tagged log of hooks, callbacks and bus accesses of concurrent register operations, hardware and mirror, against the map's prescription"
LEVEL_NOTE = "Random register models, operations and schedules on the real register, map, adapter and sequencer classes; exploration, no claim beyond what ran."
RULE = ("1-3 nested maps of 1-8 bytes, 1-5 registers of 1-64 bits, 1-4 tasks of 3-12 operations; non-trivial: at least two operations reached the bus; "
        "distinct: hash of the bus traffic")
REQUIRE = {"writes": 1800, "reads": 1800, "bus_accesses": 6000, "contended": 1300, "multi_word": 1100, "errors": 150, "aborted": 100, "post_failed": 100,
           "refused": 250, "hooked": 3000, "frontdoor": 200, "responses": 400, "abstract": 500, "parents": 200, "parent_sequences": 500, "block_updates": 110,
           "block_mirrors": 50, "block_mismatches": 60, "by_name": 230, "samples": 3000}
ASSUMPTIONS = []
_ids = itertools.count()


def gen(rng, tier):
    maps, blocks = [], []
    for b in range(rng.choice([1, 1, 2, 3])):
        w = rng.choice([1, 2, 4, 4, 8]) if b == 0 else rng.choice([x for x in (1, 2, 4, 8) if x <= maps[up]["bus"]])
        maps.append({"block": b, "base": rng.choice([0, 0, 0x1000]) if b == 0 else 0, "up": None if b == 0 else up, "off": 0x4000 * b if b else 0,
                     "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": w})
        blocks.append({"parent": -1 if b == 0 else up})
        up = rng.randrange(b + 1)
    regs = []
    for k in range(rng.randint(1, 5)):
        bits = rng.choice([1, 7, 8, 16, 20, 32, 32, 40, 64, 64])
        cuts = sorted(rng.sample(range(1, bits), min(rng.choice([0, 0, 1, 3]), bits - 1)))
        fields = [[a, b - a, "RW" if rng.random() < .9 else "RO"] for a, b in zip([0] + cuts, cuts + [bits])]
        where = "mapped" if rng.random() < .9 else rng.choice(["unmapped", "nowhere", "frontdoor", "frontdoor", "unmapped_frontdoor"])
        regs.append({"bits": bits, "fields": fields, "block": rng.randrange(len(blocks)), "where": where, "hook": rng.random() < .4, "cbs": rng.choice([0, 0, 1, 2]),
                     "fhook": [rng.random() < .15 for _ in fields], "fcbs": [rng.choice([0, 0, 0, 0, 1, 2]) for _ in fields],
                     "xor": rng.getrandbits(bits) if rng.random() < .3 else 0, "fxor": [rng.getrandbits(n) if rng.random() < .2 else 0 for _, n, _ in fields],
                     "fail": [i for i in range(8) if rng.random() < .3] if rng.random() < .15 else []})
    tasks = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops = []
        hot = rng.randrange(len(regs))
        for _ in range(rng.randint(3, 9 if tier == "quick" else 12)):
            k = hot if rng.random() < .5 else rng.randrange(len(regs))
            r = rng.random()
            o = {"reg": k, "map": rng.choice(["none", "own", "root", "root"]), "value": rng.getrandbits(regs[k]["bits"]),
                 "abort": rng.random() < .06, "post_fail": rng.random() < .04, "parent": rng.random() < .12, "foreign": rng.random() < .04}
            if r < .1:
                o = {"op": "delay", "n": rng.choice([1, 2, 5])}
            elif r < .5:
                o["op"] = "write"
            elif r < .56:
                o["op"] = "by_name"
            else:
                o["op"] = "read"
            ops.append(o)
        tasks.append(ops)
    end = []
    for _ in range(rng.choice([0, 1, 2])):
        end.append([rng.choice(["update", "update", "mirror"]), [rng.getrandbits(r["bits"]) if rng.random() < .6 else None for r in regs]])
    return {"byte": True, "maps": maps, "blocks": blocks, "regs": regs, "tasks": tasks, "end": end, "mode": rng.choice(["plain", "plain", "plain", "responses", "abstract", "parent_seq"]),
            "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)], "auto": rng.random() < .9}


async def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.base.uvm_object import UVMObject
    from uvm.macros import uvm_object_utils
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_cbs import UVMRegCb, UVMRegCbs, UVMRegFieldCb
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
    from uvm.seq.uvm_sequence import UVMSequence
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import HwReg, System
    from vp.tasks import spawn
    log = []

    class Tag(UVMObject):
        def __init__(self, op):
            super().__init__("tag")
            self.op, self.abort, self.post_fail = op, False, False

    def note(rw, what, *more):
        if rw.extension is not None:
            log.append((rw.extension.op, what, *more))

    class Hooks:
        """the four hooks of a register or a field"""
        who = ""

        async def pre_write(self, rw):
            note(rw, "pre_write", self.who, rw.value[0])
            self.slow and await Timer(self.slow, "NS")
            rw.value[0] ^= self.xor
            if rw.extension is not None and rw.extension.abort:
                rw.status = rm.UVM_NOT_OK

        async def post_write(self, rw):
            note(rw, "post_write", self.who, rw.value[0])
            if rw.extension is not None and rw.extension.post_fail:
                rw.status = rm.UVM_NOT_OK

        async def pre_read(self, rw):
            note(rw, "pre_read", self.who)
            self.slow and await Timer(self.slow, "NS")
            if rw.extension is not None and rw.extension.abort:
                rw.status = rm.UVM_NOT_OK

        async def post_read(self, rw):
            note(rw, "post_read", self.who, rw.value[0])
            if rw.extension is not None and rw.extension.post_fail:
                rw.status = rm.UVM_NOT_OK

    class HookedField(Hooks, UVMRegField):
        pass

    class Cb(UVMRegCbs):
        def __init__(self, who, xor, at, sync):
            super().__init__(who)
            self.who, self.xor, self.at, self.slow, self.sync = who, xor, at, 0, sync

        async def pre_write(self, rw):
            mon.check(rw.element is self.at, "cb_element", "the element a callback sees")
            await Hooks.pre_write(self, rw)

        async def post_write(self, rw):
            mon.check(rw.element is self.at, "cb_element", "the element a callback sees")
            await Hooks.post_write(self, rw)

        async def pre_read(self, rw):
            mon.check(rw.element is self.at, "cb_element", "the element a callback sees")
            await Hooks.pre_read(self, rw)

        def post_read(self, rw):
            mon.check(rw.element is self.at, "cb_element", "the element a callback sees")
            r = Hooks.post_read(self, rw)
            if not self.sync:
                return r
            try:
                r.send(None)
            except StopIteration:
                return None

    class Reg(UVMReg):
        def sample(self, data, byte_en, is_read, _map):
            mon.count("samples")
            samples.append((self, data, bool(is_read)))

    class HookedReg(Hooks, Reg):
        pass

    class Block(UVMRegBlock):
        def sample(self, offset, is_read, _map):
            bsamples.append((self, offset, bool(is_read)))

    class Frontdoor(UVMRegFrontdoor):
        busy = False

        async def body(self):
            mon.check(not self.busy, "frontdoor_alone", "two accesses in one user-defined frontdoor")
            self.busy = True
            rw, hw = self.rw_info, self.hw
            mon.count("frontdoor")
            await Timer(2, "NS")
            full = (1 << 64) - 1
            if rw.kind == rm.UVM_WRITE:
                hw.access(True, full, rw.value[0])
                note(rw, "fd", rw.value[0])
            else:
                rw.value[0] = hw.access(False, full, 0)
                note(rw, "fd", rw.value[0])
            rw.status = rm.UVM_IS_OK
            self.busy = False

    class Parent(UVMSequence):
        def mid_do(self, item):
            self.calls.append("mid" if isinstance(item, sys.BusItem) else "MID")

        def post_do(self, item):
            self.calls.append("post" if isinstance(item, sys.BusItem) else "POST")

    samples, bsamples = [], []
    tag = next(_ids)
    cls = type(f"AdapterParent{tag}", (Parent,), {"calls": []})
    uvm_object_utils(cls)
    with Output() as out:
        sys = System(mon, tag, case["delays"], case["mode"] == "responses")
        out.take()
        bmodel = Model(case)
        blks, maps = [], []
        for b, spec in enumerate(case["blocks"]):
            blk = Block(f"blk{tag}_{b}")
            blk.configure(blks[spec["parent"]] if b else None)
            m = case["maps"][b]
            mp = blk.create_map(f"map{b}", m["base"], m["bus"], getattr(rm, m["endian"]), True)
            blk.set_default_map(mp)
            if b:
                maps[m["up"]].add_submap(mp, m["off"])
            blks.append(blk)
            maps.append(mp)
        other = Block(f"other{tag}")
        other.configure()
        foreign = other.create_map("foreign", 0, 4, rm.UVM_LITTLE_ENDIAN, True)
        regs, hws, words, offs = [], [], [], []
        for k, spec in enumerate(case["regs"]):
            r = (HookedReg if spec["hook"] else Reg)(f"r{k}", spec["bits"])
            r.configure(blks[spec["block"]])
            r.who, r.xor, r.slow = f"reg{k}", spec["xor"] if spec["hook"] else 0, k % 3
            hw = HwReg([tuple(f) for f in spec["fields"]])
            for j, (lsb, size, pol) in enumerate(spec["fields"]):
                f = (HookedField if spec["fhook"][j] else UVMRegField)(f"f{j}")
                f.who, f.xor, f.slow = f"field{k}.{j}", spec["fxor"][j] if spec["fhook"][j] else 0, j % 2
                f.configure(r, size, lsb, pol, False, 0, True, True, False)
                for c in range(spec["fcbs"][j]):
                    UVMRegFieldCb.add(f, Cb(f"field{k}.{j}.cb{c}", spec["fxor"][j] if c == 0 and not spec["fhook"][j] else 0, f, k % 2))
            for c in range(spec["cbs"]):
                UVMRegCb.add(r, Cb(f"reg{k}.cb{c}", spec["xor"] if c == 0 and not spec["hook"] else 0, r, k % 2))
            at, m = 0x40 * k, maps[spec["block"]]
            fd = None
            if "frontdoor" in spec["where"]:
                fd = Frontdoor(f"fd{k}")
                fd.hw = hw
            if spec["where"] != "nowhere":
                m.add_reg(r, at, "RW", "unmapped" in spec["where"], fd)
            ws = []
            if spec["where"] == "mapped":
                w = bmodel.width(spec["block"])
                for i, a in enumerate(bmodel.addrs(spec["block"], at, (spec["bits"] + 7) // 8)):
                    sys.decode[a] = (hw, w * 8 * i, w)
                    ws.append((a, w, i))
                    if i in spec["fail"]:
                        sys.fail.add(a)
            regs.append(r)
            hws.append(hw)
            words.append(ws)
            offs.append(at)
        for blk in [blks[0], other]:
            blk.lock_model()
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")
        maps[0].set_sequencer(sys.sqr, None if case["mode"] == "abstract" else sys.adapter)
        maps[0].set_auto_predict(case["auto"])
        for m in maps:
            m.set_check_on_read(False)
        blks[0].reset()
        if case["mode"] == "parent_seq":
            sys.adapter.parent_sequence = cls("aps")

        def serve_item(it):
            k = regs.index(it.element)
            full = (1 << 64) - 1
            if it.kind == rm.UVM_WRITE:
                hws[k].access(True, full, it.value[0])
            else:
                it.value[0] = hws[k].access(False, full, 0)
            note(it, "item", it.kind == rm.UVM_WRITE, it.value[0])
            it.status = rm.UVM_IS_OK
            mon.count("abstract")
        sys.serve_item = serve_item
        real_serve = sys.serve

        def serve(f):
            r = real_serve(f)
            e = sys.log[-1]
            log.append((f["ext"].op if f["ext"] is not None else None, "bus", *e[:6]))
            return r
        sys.serve = serve
        ops = []
        done = []
        inflight = {}

        async def one(o):
            n = len(ops)
            k = o["reg"]
            reg, spec = regs[k], case["regs"][k]
            t = Tag(n)
            t.abort, t.post_fail = o["abort"], o["post_fail"]
            rec = dict(o, n=n)
            ops.append(rec)
            mp = None if o["map"] == "none" else maps[0] if o["map"] == "root" else maps[spec["block"]]
            if o["foreign"]:
                mp = foreign
            st, val = [], []
            par = None
            if o["parent"]:
                par = Parent("parent")
                par.calls = []
            mon.count("contended", inflight.get(k, 0) > 0)
            inflight[k] = inflight.get(k, 0) + 1
            if o["op"] == "write":
                await reg.write(st, o["value"], rm.UVM_FRONTDOOR, mp, par, -1, t)
            elif o["op"] == "by_name":
                mon.count("by_name")
                await blks[0].write_reg_by_name(st, f"r{k}", o["value"], rm.UVM_FRONTDOOR, mp, par, -1, t)
                rec["op"] = "write"
            else:
                await reg.read(st, val, rm.UVM_FRONTDOOR, mp, par, -1, t)
            inflight[k] -= 1
            rec.update(status=st, got=val, calls=par.calls if par else None)
            done.append(n)
            mon.count("writes" if rec["op"] == "write" else "reads")

        async def task(lst):
            for o in lst:
                if o["op"] == "delay":
                    await Timer(o["n"], "NS")
                else:
                    await one(o)
        running = [spawn(mon, task(lst)) for lst in case["tasks"]]
        for t in running:
            await t.join()
        reps, _ = out.take()
        sys.take()
        # ---- what each operation did
        by_op = {}
        for e in log:
            by_op.setdefault(e[0], []).append(e[1:])
        values = [0] * len(regs)            # hardware values, operation by operation
        mirror = [0] * len(regs)
        sure = [True] * len(regs)
        refusals = 0
        reached = 0
        exp_samples, exp_bsamples = [], []
        for n in done:
            o = ops[n]
            k = o["reg"]
            spec, fields = case["regs"][k], case["regs"][k]["fields"]
            write = o["op"] == "write"
            trace, status = [], rm.UVM_IS_OK
            bad = o["foreign"] or spec["where"] in ("nowhere", "unmapped")
            words_done = 0
            v = o["value"]
            ok = True
            if bad:
                mon.count("refused")
                refusals += 1
                status = rm.UVM_NOT_OK
            else:
                hooked = False
                kind = "write" if write else "read"
                for j, (lsb, size, pol) in enumerate(fields):
                    fm = (1 << size) - 1
                    for who, x in ([(f"field{k}.{j}", spec["fxor"][j])] if spec["fhook"][j] else []) + \
                            [(f"field{k}.{j}.cb{c}", spec["fxor"][j] if c == 0 and not spec["fhook"][j] else 0) for c in range(spec["fcbs"][j])]:
                        hooked = True
                        trace.append(("pre_write", who, v >> lsb & fm) if write else ("pre_read", who))
                        v ^= x << lsb
                rwho = ([(f"reg{k}", spec["xor"])] if spec["hook"] else []) + [(f"reg{k}.cb{c}", spec["xor"] if c == 0 and not spec["hook"] else 0) for c in range(spec["cbs"])]
                for who, x in rwho:
                    hooked = True
                    trace.append(("pre_write", who, v) if write else ("pre_read", who))
                    v ^= x
                mon.count("hooked", hooked)
                if o["abort"] and hooked:
                    mon.count("aborted")
                    status = rm.UVM_NOT_OK
                else:
                    rwmask = sum(((1 << s) - 1) << lsb for lsb, s, p in fields if p == "RW")
                    if words[k] and case["mode"] != "abstract":
                        mon.count("multi_word", len(words[k]) > 1)
                        got = 0
                        for a, w, i in words[k]:
                            wm = (1 << 8 * w) - 1
                            ok = a not in sys.fail
                            words_done += 1
                            left = min(8 * w, spec["bits"] - 8 * w * i)
                            if write:
                                d = v >> (8 * w * i) & wm
                                if ok:
                                    m = (wm << (8 * w * i)) & rwmask
                                    values[k] = values[k] & ~m | v & m
                            else:
                                d = values[k] >> (8 * w * i) & wm if ok else 0xDEADBEEF
                                got |= d << (8 * w * i) if ok else 0
                            trace.append(("bus", kind, a, d, (1 << w) - 1, left, ok))
                            if not ok:
                                status = rm.UVM_NOT_OK
                                mon.count("errors")
                                break
                    elif words[k]:
                        if write:
                            values[k] = values[k] & ~rwmask | v & rwmask
                        got = values[k]
                        trace.append(("item", write, v if write else got))
                    else:
                        if write:
                            values[k] = values[k] & ~rwmask | v & rwmask
                        got = values[k]
                        trace.append(("fd", v if write else got))
                    if case["auto"]:
                        if ok:
                            mirror[k] = mirror[k] & ~rwmask | (v if write else got) & rwmask if write else got
                            exp_samples.append((k, None if write and spec["xor"] else v if write else got, not write))
                            exp_bsamples.append((spec["block"], offs[k], not write))
                        else:
                            sure[k] = False
                    if ok and not write:
                        mon.equal(o["got"], [got], "read_value", "value of a read", op=o)
                    if not (write or ok):
                        got = None          # what a failed read returns is not specified
                    reached += 1
                    pv = v if write else got
                    for who, _ in [r for r in rwho if ".cb" in r[0]] + [r for r in rwho if ".cb" not in r[0]]:
                        trace.append(("post_" + kind, who, pv))
                    for j, (lsb, size, pol) in enumerate(fields):
                        fv = None if pv is None else pv >> lsb & ((1 << size) - 1)
                        trace += [("post_" + kind, f"field{k}.{j}.cb{c}", fv) for c in range(spec["fcbs"][j])]
                        if spec["fhook"][j]:
                            trace.append(("post_" + kind, f"field{k}.{j}", fv))
                    if o["post_fail"] and hooked:
                        mon.count("post_failed")
                        status = rm.UVM_NOT_OK
            mon.count("responses", case["mode"] == "responses" and words_done > 0)
            seen = by_op.pop(n, [])
            same = len(seen) == len(trace) and all(a[:len(b) - 1] == b[:-1] and (b[-1] is None or a[-1] == b[-1]) for a, b in zip(seen, trace))
            mon.check(same, "trace", lambda: f"operation {o}: saw {seen}, expected {trace}", regs=case["regs"], maps=case["maps"])
            mon.equal(o["status"], [status], "status", f"status of a {o['op']} of a {spec['where']} register", op=o, fail=spec["fail"])
            if o["calls"] is not None and case["mode"] not in ("abstract", "parent_seq") and words_done and ok:
                mon.count("parents")
                mon.equal((o["calls"].count("MID"), o["calls"].count("POST"), o["calls"].count("mid"), o["calls"].count("post")),
                          (1, 1, words_done, words_done), "parent", "calls of mid_do and post_do of the parent sequence", op=o)
            mon.count("parent_sequences", case["mode"] == "parent_seq" and words_done > 0)
        mon.equal(by_op, {}, "strays", "events that belong to no operation")
        mon.equal(len(done), sum(o["op"] != "delay" for lst in case["tasks"] for o in lst), "finished", "operations that returned")
        errs = [x for x in reps if x[0] == "UVM_ERROR"]
        mon.equal(len(errs), refusals, "reports", "errors reported: one for each access refused", errors=errs[:3])
        for e in log:
            mon.event(e[1], e)
        # accesses to one register do not mix
        order = {}
        for e in log:
            if e[0] is not None:
                order.setdefault(ops[e[0]]["reg"], []).append(e[0])
        for k, lst in order.items():
            runs = [a for a, _ in itertools.groupby(lst)]
            mon.equal(len(runs), len(set(runs)), "mixed", f"operations on register {k} that interleave", log=[e for e in log if e[0] in runs][:20])
        mon.equal([(regs.index(r), None if not rd and case["regs"][regs.index(r)]["xor"] else d, rd) for r, d, rd in samples], exp_samples, "samples", "values sampled for coverage")
        mon.equal([(blks.index(b), d, rd) for b, d, rd in bsamples], exp_bsamples, "block_samples", "offsets sampled for coverage")
        for k, r in enumerate(regs):
            mon.equal(hws[k].value, values[k], "hardware", f"value of the hardware register {k}", reg=case["regs"][k])
            if sure[k]:
                mon.equal(r.get_mirrored_value(), mirror[k], "mirror", f"mirrored value of register {k}")
            mon.check(not r.is_busy(), "busy", "a register is busy when no access is in flight")
        # ---- whole blocks
        usable = [k for k, r in enumerate(case["regs"]) if r["where"] not in ("nowhere", "unmapped")]
        if len(usable) == len(regs) and not sys.fail and case["auto"]:
            for how, vals in case["end"]:
                log.clear()
                sys.take()
                for k, v in enumerate(vals):
                    rwmask = sum(((1 << s) - 1) << lsb for lsb, s, p in case["regs"][k]["fields"] if p == "RW")
                    regs[k].predict(hws[k].value)
                    if v is not None and how == "update":
                        regs[k].set(v)
                    elif v is not None:
                        for j, (lsb, size, pol) in enumerate(case["regs"][k]["fields"]):
                            pol == "RW" and hws[k].put(j, v >> lsb)
                out.take()
                st = []
                if how == "update":
                    mon.count("block_updates")
                    need = [r.needs_update() for r in regs]
                    want = [r.get() for r in regs]
                    await blks[0].update(st, rm.UVM_FRONTDOOR)
                    mon.equal(st, [rm.UVM_IS_OK], "block_status", "status of updating a block")
                    if case["mode"] != "abstract":
                        touched = {k for e in sys.take() for k in range(len(regs)) if sys.decode[e[1]][0] is hws[k]}
                        mon.equal(touched, {k for k in range(len(regs)) if need[k] and words[k]}, "block_update", "registers written when the block is updated")
                    for k, r in enumerate(regs):
                        if not (case["regs"][k]["xor"] or any(case["regs"][k]["fxor"])):
                            mon.equal((hws[k].value, r.get_mirrored_value()), (want[k], want[k]), "block_update_value", "hardware and mirror after updating the block")
                else:
                    mon.count("block_mirrors")
                    diff = [r.get_mirrored_value() != hws[k].value for k, r in enumerate(regs)]
                    await blks[0].mirror(st, rm.UVM_CHECK, rm.UVM_FRONTDOOR)
                    mon.equal(st, [rm.UVM_IS_OK], "block_status", "status of mirroring a block")
                    reps, _ = out.take()
                    mon.count("block_mismatches", sum(diff))
                    mon.equal(len([x for x in reps if x[0] == "UVM_ERROR"]), sum(diff), "block_mirror", "differences reported when the block is mirrored")
                    for k, r in enumerate(regs):
                        mon.equal(r.get_mirrored_value(), hws[k].value, "block_mirror_value", "mirrored values after mirroring the block")
        mon.nontrivial = reached > 1
        sys.task.kill()
