"""C30: the register predictor on streams of observed bus accesses, made up or from real register traffic.

Every access given to a predictor is recorded in order, and a model that knows nothing of the library says what the mirror, the
published items, the coverage samples and the reports have to be."""
import itertools

from cocotb.triggers import Timer

SIM = True
BATCH = 10
CASES = {"quick": 700, "thorough": 10000}
TECHNIQUE = "runtime monitoring: the stream of bus accesses a predictor observes, its published items, samples and reports, and every mirror, against a model"
LEVEL_NOTE = "Random register maps and access streams on the real predictor, map, register and field classes; exploration, no claim beyond what ran."
RULE = ("1-3 nested maps and one beside them, each root with its predictor, 2-6 registers of 1-64 bits, 10-60 accesses interleaved, repeated, left out, or made "
        "by real register operations; non-trivial: at least two items published; distinct: hash of the stream")
REQUIRE = {"bus_cases": 60, "changed": 1800, "collisions": 150, "disabled_fields": 500, "incomplete": 50, "mismatches": 150, "multi": 1600, "narrow_nested": 350,
           "operations": 900, "predicted_reads": 2000, "predicted_writes": 2000, "restricted": 1700, "second_map": 300, "strays": 300, "checked_reads": 500, "desired_set": 400}
ASSUMPTIONS = ["What is predicted from accesses that end with an error, and from accesses to one register that mix writes and reads, is open."]
_ids = itertools.count()


def gen(rng, tier):
    from vp.regmodel import ONCE, POLICIES
    mode = rng.choice(["stream", "stream", "stream", "bus"])
    pols = [p for p in POLICIES if mode == "stream" or p not in ONCE]
    maps = []
    nb = rng.choice([1, 1, 2, 3])
    up = None
    for b in range(nb):
        w = rng.choice([1, 2, 4, 4, 8]) if b == 0 else rng.choice([x for x in (1, 2, 4, 8) if x <= maps[up]["bus"]])
        maps.append({"block": b, "base": rng.choice([0, 0, 0x1000]) if b == 0 else 0, "up": None if b == 0 else up, "off": 0x4000 * b if b else 0,
                     "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": w})
        up = rng.randrange(b + 1)
    maps.append({"block": 0, "base": 0x100000, "up": None, "off": 0, "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": rng.choice([1, 2, 4, 8])})
    regs = []
    for k in range(rng.randint(2, 6)):
        bits = rng.choice([1, 7, 8, 16, 20, 32, 32, 40, 64, 64])
        cuts = sorted(rng.sample(range(1, bits), min(rng.choice([0, 1, 3, 6]), bits - 1)))
        fields = [[a, b - a, rng.choice(["RW"] + pols), rng.random() < .3] for a, b in zip([0] + cuts, cuts + [bits])]
        r = {"bits": bits, "fields": [f for f in fields if rng.random() < .9] or fields, "block": rng.randrange(nb), "rights": rng.choice(["RW", "RW", "RO", "WO"]),
             "alt": None, "pair": False, "reset": rng.getrandbits(bits), "at": 0x40 * k}
        if r["block"] == 0 and rng.random() < .4:
            r["alt"] = rng.choice(["RW", "RO", "WO"])
        regs.append(r)
        if mode == "stream" and rng.random() < .15:
            for f in r["fields"]:
                f[2] = "RO"
            r["alt"], r["rights"] = None, "RW"
            regs.append(dict(r, fields=[[0, bits, "WO", False]], pair=True))
    queues = []
    for k, r in enumerate(regs):
        q = []
        for _ in range(rng.randint(1, 6)):
            via = 1 if r["alt"] and rng.random() < .4 else 0
            pair = [j for j, x in enumerate(regs) if x["at"] == r["at"]]
            write = rng.random() < .5 if len(pair) == 1 else r["pair"]
            kind = rng.choice(["all"] * 8 + ["repeat"])
            q.append({"reg": k, "write": write, "value": rng.getrandbits(r["bits"]), "via": via, "order": rng.random(), "kind": kind, "cut": rng.random(),
                      "same": rng.random() < .6, "be": rng.random() < .25, "bes": rng.getrandbits(len(r["fields"])), "flip": rng.getrandbits(r["bits"]) if rng.random() < .5 else 0})
        if rng.random() < .15:
            q[-1]["kind"] = "part"
        queues.append(q)
    return {"byte": True, "mode": mode, "maps": maps, "blocks": [{"parent": -1 if b == 0 else maps[b]["up"]} for b in range(nb)], "regs": regs, "queues": queues,
            "merge": rng.getrandbits(60), "strays": rng.random() < .4, "check": rng.random() < .4, "hook": rng.getrandbits(6) if rng.random() < .3 else 0,
            "be_adapter": rng.random() < .5, "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)]}


async def run(case, mon):
    import random

    import uvm.reg.uvm_reg_model as rm
    from uvm.comps.uvm_subscriber import UVMSubscriber
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_predictor import UVMRegPredictor
    from vp.checks.c25 import FieldModel
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import WRITE_ONLY, HwReg, System, restricted
    from vp.tasks import spawn
    tag = next(_ids)
    rnd = random.Random(case["merge"])

    class Reg(UVMReg):
        def sample(self, data, byte_en, is_read, _map):
            seen.append(("sample", regs.index(self), data, bool(is_read), maps.index(_map)))

    class Block(UVMRegBlock):
        def sample(self, offset, is_read, _map):
            seen.append(("block_sample", blks.index(self), offset, bool(is_read), maps.index(_map)))

    class Predictor(UVMRegPredictor):
        def pre_predict(self, rw):
            seen.append(("pre", regs.index(rw.element), rw.kind == rm.UVM_WRITE, rw.value[0], regs[regs.index(rw.element)].get_mirrored_value()))
            rw.value[0] ^= case["hook"] & ((1 << case["regs"][regs.index(rw.element)]["bits"]) - 1)

    class Sink(UVMSubscriber):
        def write(self, t):
            seen.append(("item", regs.index(t.element), t.kind == rm.UVM_WRITE, t.value[0], maps.index(t.map), t.path == rm.UVM_PREDICT, t.element_kind == rm.UVM_REG,
                         t.element.get_mirrored_value()))

    seen = []
    with Output() as out:
        sys = System(mon, tag, case["delays"])
        out.take()
        bmodel = Model(case)
        blks, maps = [], []
        for b, spec in enumerate(case["blocks"]):
            blk = Block(f"blk{tag}_{b}")
            blk.configure(blks[spec["parent"]] if b else None)
            m = case["maps"][b]
            mp = blk.create_map(f"map{b}", m["base"], m["bus"], getattr(rm, m["endian"]), True)
            blk.set_default_map(mp)
            if b:
                maps[m["up"]].add_submap(mp, m["off"])
            blks.append(blk)
            maps.append(mp)
        ALT = len(maps)
        m = case["maps"][ALT]
        maps.append(blks[0].create_map("alt", m["base"], m["bus"], getattr(rm, m["endian"]), True))
        regs, hws, models, where = [], [], [], []
        for k, spec in enumerate(case["regs"]):
            r = Reg(f"r{k}", spec["bits"])
            r.configure(blks[spec["block"]])
            fms = []
            hw = HwReg([tuple(f[:3]) for f in spec["fields"]], sum((spec["reset"] >> lsb & ((1 << n) - 1)) << lsb for lsb, n, _, _ in spec["fields"]))
            for j, (lsb, size, pol, vol) in enumerate(spec["fields"]):
                f = UVMRegField(f"f{j}")
                rst = spec["reset"] >> lsb & ((1 << size) - 1)
                f.configure(r, size, lsb, pol, vol, rst, True, True, False)
                fm = FieldModel({"policy": pol, "size": size, "vol": vol, "reset": {"HARD": rst}, "lsb": lsb})
                fm.put(rst)
                fms.append(fm)
            maps[spec["block"]].add_reg(r, spec["at"], spec["rights"])
            if spec["alt"]:
                maps[ALT].add_reg(r, spec["at"], spec["alt"])
            ws = {}
            for via, mi in enumerate([spec["block"]] + [ALT] * bool(spec["alt"])):
                w = bmodel.width(mi)
                rights = spec["alt"] if via else spec["rights"]
                ws[via] = (mi, w, rights, bmodel.addrs(mi, spec["at"], (spec["bits"] + 7) // 8))
                for i, a in enumerate(ws[via][3]):
                    sys.decode[a] = (hw, w * 8 * i, w, rights)
            regs.append(r)
            hws.append(hw)
            models.append(fms)
            where.append(ws)
        blks[0].lock_model()
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")
        for x in maps:
            x.set_check_on_read(case["check"] and case["mode"] == "stream")
        blks[0].reset()
        await Timer(1, "NS")
        preds = []
        for via, mi in enumerate((0, ALT)):
            p = Predictor(f"pred{tag}_{via}", None)
            p.map, p.adapter = maps[mi], sys.Adapter("a")
            if not case["be_adapter"]:
                p.adapter = nobe(sys)
            s = Sink(f"sink{tag}_{via}", None)
            p.reg_ap.connect(s.analysis_export)
            for port in (p.reg_ap, s.analysis_export, p.bus_in):
                port.resolve_bindings()
            preds.append(p)
        out.take()
        exp = []
        pending = {}                # (predictor, register) -> {address: (data, byte enables)}, kind
        stream = []
        published = 0

        def observe(write, addr, data, be):
            """one access on the bus: what the predictor of that bus does, and what it has to do"""
            nonlocal published
            via = 1 if addr >= case["maps"][ALT]["base"] else 0
            it = sys.BusItem("seen")
            it.f = dict(write=write, addr=addr, data=data, be=be, n_bits=0, status=True)
            seen.clear()
            stream.append((via, write, addr, data, be))
            mon.event("access", stream[-1])
            preds[via].bus_in.write(it)
            reps, _ = out.take()
            want, errors = [], []
            k = [k for k in range(len(regs)) if via in where[k] and addr in where[k][via][3]]
            if len(k) == 2:
                k = [j for j in k if case["regs"][j]["pair"] == write]
            if not k:
                mon.count("strays")
            else:
                k = k[0]
                mi, w, rights, addrs = where[k][via]
                got = pending.setdefault((via, k), {})
                if addr in got:
                    mon.count("collisions")
                    errors = ["REG_PREDICT_COLLISION"]
                    del pending[via, k]
                else:
                    got[addr] = (data, be)
                    if len(got) == len(addrs):
                        del pending[via, k]
                        published += 1
                        value = sum(got[a][0] << (8 * w * i) for i, a in enumerate(addrs))
                        bes = sum((got[a][1] & ((1 << w) - 1)) << (w * i) for i, a in enumerate(addrs)) if case["be_adapter"] else -1
                        before = sum(f.mirrored << f.spec["lsb"] for f in models[k])
                        mon.count("predicted_writes" if write else "predicted_reads")
                        mon.count("multi", len(addrs) > 1)
                        mon.count("narrow_nested", mi not in (0, ALT) and len(addrs) > 1 and w < case["maps"][0]["bus"])
                        mon.count("second_map", via == 1)
                        mon.count("restricted", rights != "RW")
                        if case["check"] and case["mode"] == "stream" and not write:
                            mon.count("checked_reads")
                            bad = any(f.compare and restricted(f.policy, rights) not in WRITE_ONLY and (before ^ value) >> f.spec["lsb"] & f.mask for f in models[k])
                            holes = (before ^ value) & ~sum(f.mask << f.spec["lsb"] for f in models[k])
                            if bad or holes:
                                mon.count("mismatches")
                                errors = ["RegModel"]
                        want.append(("pre", k, write, value, before))
                        value ^= case["hook"] & ((1 << case["regs"][k]["bits"]) - 1)
                        want.append(("sample", k, value, not write, mi))
                        want.append(("block_sample", case["regs"][k]["block"], case["regs"][k]["at"], not write, mi))
                        for f in models[k]:
                            if bes >> (f.spec["lsb"] // 8) & 1:
                                (f.write if write else f.read)(value >> f.spec["lsb"], rights)
                            else:
                                mon.count("disabled_fields")
                        after = sum(f.mirrored << f.spec["lsb"] for f in models[k])
                        mon.count("changed", after != before)
                        want.append(("item", k, write, value, 0 if via == 0 else ALT, True, True, after))
            mon.equal(list(seen), want, "published", "what a predictor does for an access", access=stream[-1], check=case["check"], reg=case["regs"][k] if want else None,
                      maps=case["maps"])
            mon.equal([x[1] for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL", "UVM_WARNING")], errors, "reports", "reports for an access", reports=[x[2][-200:] for x in reps][:2])
            for k, r in enumerate(regs):
                mon.equal(r.get_mirrored_value(), sum(f.mirrored << f.spec["lsb"] for f in models[k]), "mirror", "mirrored value of a register", access=stream[-1])
                if case["mode"] == "stream":        # a write sets the desired value before it gets to the bus
                    mon.equal(r.get(), sum(f.desired << f.spec["lsb"] for f in models[k]), "desired", "desired value of a register", access=stream[-1])

        if case["mode"] == "stream":
            queues = []
            for q in case["queues"]:
                acc = []
                for o in q:
                    spec = case["regs"][o["reg"]]
                    mi, w, rights, addrs = where[o["reg"]][o["via"]]
                    used = sum(((1 << n) - 1) << lsb for lsb, n, _, _ in spec["fields"])
                    parts = list(range(len(addrs)))
                    random.Random(o["order"]).shuffle(parts)
                    be = full = (1 << w * len(addrs)) - 1
                    if o["be"] and case["be_adapter"]:
                        be = byte_enables(spec, o["bes"], full)
                    if o["kind"] == "repeat" and len(parts) > 1:
                        parts = parts[:1 + int(o["cut"] * (len(parts) - 1))]
                        parts.append(random.Random(o["order"]).choice(parts))
                    elif o["kind"] == "part" and len(parts) > 1:
                        parts = parts[:1 + int(o["cut"] * (len(parts) - 1))]
                    acc += [(o, i, w, used, be) for i in parts]
                queues.append(acc)
            values = {}
            while any(queues):
                if case["strays"] and rnd.random() < .1:
                    observe(rnd.random() < .5, rnd.choice([0x3F, 0x7777, 0x100000 + 0x3F, 0xFFFFFFF]), rnd.getrandbits(16), 1)
                    continue
                if rnd.random() < .1:
                    k = rnd.randrange(len(regs))
                    v = rnd.getrandbits(case["regs"][k]["bits"])
                    regs[k].set(v)
                    for f in models[k]:
                        f.set(v >> f.spec["lsb"])
                    mon.count("desired_set", any(f.desired != f.mirrored for f in models[k]))
                q = rnd.choice([q for q in queues if q])
                o, i, w, used, be = q.pop(0)
                k = o["reg"]
                v = o["value"] & used
                if not o["write"]:
                    # what a read returns: mostly what the mirror holds
                    v = values.setdefault(id(o), (regs[k].get_mirrored_value() if o["same"] else v ^ (o["flip"] & used)))
                observe(o["write"], where[k][o["via"]][3][i], v >> (8 * w * i) & ((1 << 8 * w) - 1), be >> (w * i) & ((1 << w) - 1))
        else:
            mon.count("bus_cases")
            for mi in (0, ALT):
                maps[mi].set_sequencer(sys.sqr, sys.adapter)
                maps[mi].set_auto_predict(False)
            real = sys.serve

            def serve(f):
                data, ok = real(f)
                observe(f["write"], f["addr"], f["data"] if f["write"] else data, f["be"])
                return data, ok
            sys.serve = serve

            async def task(q):
                for o in q:
                    mp = maps[where[o["reg"]][o["via"]][0]] if o["same"] else maps[ALT if o["via"] else 0]
                    st, v = [], []
                    mon.count("operations")
                    if o["write"]:
                        await regs[o["reg"]].write(st, o["value"], rm.UVM_FRONTDOOR, mp)
                    else:
                        await regs[o["reg"]].read(st, v, rm.UVM_FRONTDOOR, mp)
                    mon.equal(st, [rm.UVM_IS_OK], "status", "status of an operation with a predictor on the bus")
                    if o["cut"] < .3:
                        await Timer(1 + o["bes"] % 3, "NS")
            running = [spawn(mon, task(q)) for q in case["queues"]]
            for t in running:
                await t.join()
            mon.equal(pending, {}, "pending", "accesses left over after all operations ended")
            if not case["hook"]:
                for k, r in enumerate(regs):
                    mon.equal(r.get_mirrored_value(), hws[k].value, "hardware", "the mirror of a register kept by predictors, against the hardware", reg=case["regs"][k])
        # incomplete ones are reported at the end
        for via, p in enumerate(preds):
            out.take()
            p.check_phase(None)
            reps, _ = out.take()
            left = [k for v, k in pending if v == via]
            mon.count("incomplete", bool(left))
            errs = [x for x in reps if x[0] == "UVM_ERROR"]
            mon.equal(len(errs), int(bool(left)), "incomplete", "reports of incomplete operations", left=left, errors=[x[2] for x in errs])
            if left and errs:
                mon.check(all(regs[k].get_full_name() in errs[0][2] or regs[k].get_full_name() in _ for k in left), "incomplete_names",
                          lambda: f"an incomplete register is not named: {errs[0]}")
        sys.task.kill()
    mon.distinct = hash(tuple(stream))
    mon.nontrivial = published > 1


def byte_enables(spec, bits, full):
    """byte enables of a register that enable each field as a whole or not at all"""
    be = full
    for j, (lsb, n, _, _) in enumerate(spec["fields"]):
        if not bits >> j & 1:
            be &= ~sum(1 << b for b in range(lsb // 8, (lsb + n - 1) // 8 + 1))
    for lsb, n, _, _ in spec["fields"]:
        if len({be >> b & 1 for b in range(lsb // 8, (lsb + n - 1) // 8 + 1)}) > 1:
            return full
    return be


def nobe(sys):
    """an adapter that says nothing of byte enables"""
    class Plain(sys.Adapter):
        def bus2reg(self, bus_item, rw):
            be = rw.byte_en
            super().bus2reg(bus_item, rw)
            rw.byte_en = be
    return Plain("plain")
