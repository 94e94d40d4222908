"""C25: the mirror of every field, against hardware registers that apply the access policies bit by bit.

Each case maps registers with fields of random policies on a simulated bus and runs random writes, reads, sets, updates,
mirrors, predictions and resets; after each the mirrored and desired values are compared with the hardware and a model."""
import itertools

SIM = True
BATCH = 10
CASES = {"quick": 1600, "thorough": 24000}
TECHNIQUE = "runtime monitoring: mirrored, desired and bus values of random register histories compared with bit-level hardware registers"
LEVEL_NOTE = "Random histories on the real field, register, map and sequencer classes; exploration, no claim beyond what ran."
RULE = ("1-3 registers of 1-64 bits with 1-6 fields of any policy in 1-2 maps, 12-60 operations; non-trivial: at least one write and one read; "
        "distinct: hash of the bus traffic")
REQUIRE = {"writes": 2500, "reads": 1700, "updates": 2000, "updates_needed": 500, "sets": 2700, "mirrors": 800, "mismatches": 130, "predicts": 1100,
           "resets": 600, "partial_predicts": 110, "busy_predicts": 1500, "once_ignored": 200, "restricted": 400, "bus_accesses": 8000, "hw_changes": 500,
           "checks_on_read": 350, "no_auto": 280}
ASSUMPTIONS = []
_ids = itertools.count()


def gen(rng, tier):
    from vp.regmodel import POLICIES
    regs = []
    bus = rng.choice([1, 2, 4, 4, 8])
    focus = rng.sample(POLICIES, 4)
    for _ in range(rng.randint(1, 3)):
        bits = rng.choice([1, 7, 8, 16, 24, 32, 32, 40, 64])
        fields, lsb = [], 0
        while lsb < bits and len(fields) < 6:
            lsb += rng.choice([0, 0, 0, 1, 3])
            if lsb >= bits:
                break
            size = min(rng.choice([1, 1, 2, 4, 8, 11, 16, 32, 64]), bits - lsb)
            pol = rng.choice(POLICIES if rng.random() < .6 else focus)
            fields.append({"lsb": lsb, "size": size, "policy": pol, "vol": rng.random() < .05,
                           "reset": {k: _val(rng, size) for k in rng.choice([["HARD"], ["HARD"], ["HARD", "SOFT"], ["SOFT"], []])}})
            lsb += size
        if not fields:
            fields = [{"lsb": 0, "size": bits, "policy": rng.choice(POLICIES), "vol": False, "reset": {"HARD": 0}}]
        rng.random() < .3 and rng.shuffle(fields)
        regs.append({"bits": bits, "fields": fields, "rights2": rng.choice(["RW", "RO", "WO"])})
    nf = [len(r["fields"]) for r in regs]
    two = rng.random() < .4
    ops = []
    for _ in range(rng.randint(12, 35 if tier == "quick" else 60)):
        k = rng.randrange(len(regs))
        b = regs[k]["bits"]
        m = int(two and rng.random() < .4)
        r = rng.random()
        if r < .20:
            ops.append(["write", k, _val(rng, b), m])
        elif r < .34:
            ops.append(["read", k, m])
        elif r < .44:
            ops.append(["set", k, _val(rng, b)])
        elif r < .56:
            j = rng.randrange(nf[k])
            ops.append(["setf", k, j, _val(rng, regs[k]["fields"][j]["size"] + (rng.random() < .05))])
        elif r < .72:
            ops.append(["update", k])
        elif r < .79:
            ops.append(["mirror", k, rng.random() < .8, m])
        elif r < .83:
            ops.append(["hw", k, _val(rng, b), rng.random() < .6])
        elif r < .92:
            j = rng.randrange(nf[k])
            ops.append(["predict", k, j if rng.random() < .5 else -1, rng.choice(["WRITE", "READ", "DIRECT"]), _val(rng, b),
                        -1 if rng.random() < .6 else rng.getrandbits(8), rng.choice(["UVM_FRONTDOOR", "UVM_PREDICT", "UVM_BACKDOOR"]), m])
        elif r < .97:
            ops.append(["reset", k if rng.random() < .5 else -1, rng.choice(["HARD", "HARD", "SOFT", "POR"])])
        elif r < .985:
            ops.append(["set_reset", k, rng.randrange(nf[k]), rng.choice(["HARD", "SOFT", "POR"]), _val(rng, 8)])
        else:
            ops.append(["compare", k, rng.randrange(nf[k]), rng.random() < .5])
    return {"bus": bus, "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "regs": regs, "two": two, "ops": ops, "auto": rng.random() < .88,
            "check_on_read": rng.random() < .25, "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)], "busy": rng.random() < .25,
            "lower": rng.random() < .2}


def _val(rng, size):
    m = (1 << size) - 1
    return rng.choice([0, m, rng.getrandbits(size), rng.getrandbits(size), rng.getrandbits(size), 1 << rng.randrange(size)])


class FieldModel:
    def __init__(self, spec):
        self.spec, self.policy, self.size = spec, spec["policy"], spec["size"]
        self.mask = (1 << self.size) - 1
        self.mirrored = self.desired = 0
        self.written = False
        self.compare = not spec["vol"]
        self.resets = dict(spec["reset"])
        self.stale = False          # the hardware is known to differ

    def put(self, v):
        self.mirrored = self.desired = v & self.mask

    def set(self, v):
        from vp.regmodel import write_field
        self.desired = write_field(self.policy, self.size, self.desired, v & self.mask, self.written)

    def write(self, v, rights="RW", policy=True):
        from vp.regmodel import restricted, write_field
        p = restricted(self.policy, rights)
        self.put(write_field(p, self.size, self.mirrored, v & self.mask, self.written) if policy else v)
        if p not in ("RO", "NONE"):
            self.written = True

    def read(self, v, rights="RW", policy=True):
        from vp.regmodel import WRITE_ONLY, read_field, restricted
        p = restricted(self.policy, rights)
        if not policy:
            self.put(v)
        elif p not in WRITE_ONLY and p != "NONE":
            self.put(read_field(p, self.size, v & self.mask))


async def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import BLIND, ONCE, WRITE_ONLY, HwReg, System, restricted
    with Output() as out:
        tag = next(_ids)
        sys = System(mon, tag, case["delays"])
        blk = UVMRegBlock(f"blk{tag}")
        blk.configure()
        nmaps = 2 if case["two"] else 1
        maps = [blk.create_map(f"map{i}", 0, case["bus"], getattr(rm, case["endian"]), True) for i in range(nmaps)]
        amodel = Model({"byte": True, "maps": [{"block": 0, "base": 0, "up": None, "off": 0, "endian": case["endian"], "bus": case["bus"]}]})
        regs, hws, models = [], [], []
        for k, spec in enumerate(case["regs"]):
            r = UVMReg(f"r{k}", spec["bits"])
            r.configure(blk)
            hw = HwReg([(f["lsb"], f["size"], f["policy"]) for f in spec["fields"]])
            fms = []
            for j, f in enumerate(spec["fields"]):
                uf = UVMRegField(f"f{j}")
                uf.configure(r, f["size"], f["lsb"], f["policy"].lower() if case["lower"] else f["policy"], f["vol"], f["reset"].get("HARD", 0), "HARD" in f["reset"], True, False)
                if "SOFT" in f["reset"]:
                    uf.set_reset(f["reset"]["SOFT"], "SOFT")
                fm = FieldModel(f)
                fm.uvm, fm.j = uf, j
                fms.append(fm)
            at = 0x40 * k
            rights = ["RW", spec["rights2"]]
            for i in range(nmaps):
                maps[i].add_reg(r, at + 0x1000 * i, rights[i])
                nb = (spec["bits"] + 7) // 8
                for w, a in enumerate(amodel.addrs(0, at + 0x1000 * i, nb)):
                    sys.decode[a] = (hw, w * 8 * case["bus"], case["bus"], rights[i])
            regs.append(r)
            hws.append(hw)
            models.append(fms)
        blk.lock_model()
        for m in maps:
            m.set_sequencer(sys.sqr, sys.adapter)
            m.set_auto_predict(case["auto"])
            m.set_check_on_read(case["check_on_read"])
        blk.reset()
        for k in range(len(regs)):
            for f in models[k]:
                if "HARD" in f.resets:
                    f.put(f.resets["HARD"])
                    hws[k].put(f.j, f.mirrored)
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {reps[:2]}")
        wrote = read = 0

        def rights_of(k, m):
            return "RW" if m == 0 else case["regs"][k]["rights2"]

        def vis(k, m):
            """the bits of register k a read through map m returns"""
            res = 0
            for f in models[k]:
                p = restricted(f.policy, rights_of(k, m))
                if p not in WRITE_ONLY and p != "NONE":
                    res |= f.mask << f.spec["lsb"]
            return res

        def mirror_value(k):
            return sum(f.mirrored << f.spec["lsb"] for f in models[k])

        def expect_mismatch(k, m, exp, got):
            """whether a check finds a difference"""
            for f in models[k]:
                p = restricted(f.policy, rights_of(k, m))
                if f.compare and p not in WRITE_ONLY and (exp ^ got) >> f.spec["lsb"] & f.mask:
                    return True
            return False

        def do_busy():
            f = models[busy_reg][0]
            r = f.uvm.predict(f.mask & 0x15)
            r2 = regs[busy_reg].predict(0x2A)
            mon.count("busy_predicts")
            mon.equal((r, r2), (0, 0), "busy_predict", "predicting the value of a register while it is accessed is refused")
        for op in case["ops"]:
            kind, k = op[0], op[1]
            reg, hw, fms = regs[k], hws[k], models[k]
            if kind == "write":
                wrote += 1
                _, _, v, m = op
                mon.count("writes")
                mon.count("restricted", rights_of(k, m) != "RW")
                mon.count("once_ignored", any(f.policy in ONCE and f.written and (v >> f.spec["lsb"] & f.mask) != f.mirrored for f in fms))
                if case["busy"]:
                    busy_reg = k
                    sys.busy_hook = do_busy
                st = []
                await reg.write(st, v, rm.UVM_FRONTDOOR, maps[m])
                sys.busy_hook = None
                hw.done()
                mon.equal(st[0], rm.UVM_IS_OK, "status", "status of a write")
                traffic = sys.take()
                mon.equal(sum(x[2] << sys.decode[x[1]][1] for x in traffic), v, "bus_value", "value on the bus", traffic=traffic)
                for f in fms:
                    f.set(v >> f.spec["lsb"])
                if case["auto"]:
                    for f in fms:
                        f.write(v >> f.spec["lsb"], rights_of(k, m))
                else:
                    mon.count("no_auto")
                    mark_stale(fms, hw)
                check_quiet(mon, out, case["busy"])
            elif kind == "read":
                read += 1
                _, _, m = op
                mon.count("reads")
                mon.count("restricted", rights_of(k, m) != "RW")
                before = hw.value & vis(k, m)
                mirror = mirror_value(k)
                st, val = [], []
                if case["busy"]:
                    busy_reg = k
                    sys.busy_hook = do_busy
                await reg.read(st, val, rm.UVM_FRONTDOOR, maps[m])
                sys.busy_hook = None
                mon.equal((st[0], val), (rm.UVM_IS_OK, [before]), "read_value", "status and value of a read")
                sys.take()
                reps, _ = out.take()
                errs = [x for x in reps if x[0] == "UVM_ERROR"]
                if case["check_on_read"] and case["auto"]:
                    mon.count("checks_on_read")
                    mon.equal(bool(errs), expect_mismatch(k, m, mirror, before), "check_on_read", "whether the check on a read reports a difference", errors=errs[:2],
                              mirror=mirror, value=before, regs=case["regs"][k])
                else:
                    mon.equal(errs, [], "read_quiet", "errors reported by a read")
                if case["auto"]:
                    for f in fms:
                        f.read(before >> f.spec["lsb"], rights_of(k, m))
                        seen(f, rights_of(k, m))
                else:
                    mark_stale(fms, hw)
            elif kind in ("set", "setf"):
                mon.count("sets")
                if kind == "set":
                    reg.set(op[2])
                    for f in fms:
                        f.set(op[2] >> f.spec["lsb"])
                    out.take()
                else:
                    f = fms[op[2]]
                    f.uvm.set(op[3])
                    f.set(op[3])
                    reps, _ = out.take()
                    mon.equal(len([x for x in reps if x[0] == "UVM_WARNING"]), int(op[3] > f.mask), "set_too_large", "warnings about a value too large for its field")
            elif kind == "update":
                mon.count("updates")
                need = any(f.mirrored != f.desired or f.spec["vol"] for f in fms)
                mon.equal(bool(reg.needs_update()), need, "needs_update", "needs_update of a register")
                want = [f.desired for f in fms]
                pend = [f.mirrored != f.desired for f in fms]
                stale = [f.stale for f in fms]
                st = []
                await reg.update(st, rm.UVM_FRONTDOOR)
                hw.done()
                traffic = sys.take()
                mon.equal(st, [rm.UVM_IS_OK], "update_status", "status of an update")
                mon.equal(bool(traffic), need, "update_writes", "whether an update writes to the bus")
                check_quiet(mon, out)
                if need:
                    mon.count("updates_needed")
                    v = sum(x[2] << sys.decode[x[1]][1] for x in traffic)
                    for f in fms:
                        f.set(v >> f.spec["lsb"])
                        if case["auto"]:
                            f.write(v >> f.spec["lsb"])
                    for i, f in enumerate(fms):
                        if not stale[i] and (f.policy not in BLIND or pend[i]):
                            mon.equal(hw.field(f.j), want[i], "update_reaches", f"hardware value of a {f.policy} field after an update", pending=pend[i])
                    if not case["auto"]:
                        mark_stale(fms, hw)
            elif kind == "mirror":
                _, _, chk, m = op
                mon.count("mirrors")
                before, mirror = hw.value & vis(k, m), mirror_value(k)
                st = []
                await reg.mirror(st, rm.UVM_CHECK if chk else rm.UVM_NO_CHECK, rm.UVM_FRONTDOOR, maps[m])
                sys.take()
                mon.equal(st, [rm.UVM_IS_OK], "mirror_status", "status of a mirror")
                reps, _ = out.take()
                errs = [x for x in reps if x[0] == "UVM_ERROR"]
                mismatch = expect_mismatch(k, m, mirror, before)
                n = (int(chk) + int(case["check_on_read"] and case["auto"])) * int(mismatch)
                mon.count("mismatches", bool(n))
                mon.equal(len(errs), n, "mirror_check", "differences reported by mirror", mirror=mirror, value=before, errors=errs, regs=case["regs"][k])
                if case["auto"]:
                    for f in fms:
                        f.read(before >> f.spec["lsb"], rights_of(k, m))
                        seen(f, rights_of(k, m))
                else:
                    mark_stale(fms, hw)
            elif kind == "hw":
                _, _, v, sync = op
                mon.count("hw_changes")
                for f in fms:
                    hw.put(f.j, v >> f.spec["lsb"])
                    f.stale = hw.field(f.j) != f.mirrored
                if sync:
                    mon.equal(int(reg.predict(v)), 1, "predict_result", "result of a prediction")
                    for f in fms:
                        f.put(v >> f.spec["lsb"])
                        f.stale = False
            elif kind == "predict":
                _, _, j, how, v, be, path, m = op
                hit = fms if j < 0 else [fms[j]]
                if be != -1:
                    ok = all(len({be >> b & 1 for b in range(f.spec["lsb"] // 8, (f.spec["lsb"] + f.size - 1) // 8 + 1)}) == 1 for f in hit) and j < 0
                    if not ok:
                        be = -1
                    else:
                        mon.count("partial_predicts")
                mon.count("predicts")
                pk = getattr(rm, "UVM_PREDICT_" + how)
                r = reg.predict(v, be, pk, getattr(rm, path), maps[m]) if j < 0 else hit[0].uvm.predict(v, be, pk, getattr(rm, path), maps[m])
                mon.equal(int(r), 1, "predict_result", "result of a prediction")
                for f in hit:
                    if be >> (f.spec["lsb"] // 8) & 1:
                        x = v >> f.spec["lsb"] if j < 0 else v
                        pol = path != "UVM_BACKDOOR"
                        if how == "WRITE":
                            f.write(x, rights_of(k, m) if pol else "RW", pol)
                            if not pol:
                                f.written = True
                        elif how == "READ":
                            f.read(x, rights_of(k, m), pol)
                        else:
                            f.put(x)
                    f.stale = hw.field(f.j) != f.mirrored
                hw_sync_once(hw, fms)
                check_quiet(mon, out)
            elif kind == "reset":
                mon.count("resets")
                what = op[2]
                blk.reset(what) if k < 0 else reg.reset(what)
                for kk in ([k] if k >= 0 else range(len(regs))):
                    for f in models[kk]:
                        if what in f.resets:
                            f.put(f.resets[what])
                            hws[kk].put(f.j, f.mirrored)
                            f.stale = False
                            if what == "HARD":
                                f.written = False
                        mon.equal((f.uvm.has_reset(what), f.uvm.get_reset(what)), (what in f.resets, f.resets.get(what, f.desired)), "reset_query", "has_reset and get_reset")
                    hw_sync_once(hws[kk], models[kk])
            elif kind == "set_reset":
                f = fms[op[2]]
                f.uvm.set_reset(op[4], op[3])
                f.resets[op[3]] = op[4] & f.mask
            elif kind == "compare":
                f = fms[op[2]]
                f.uvm.set_compare(rm.UVM_CHECK if op[3] else rm.UVM_NO_CHECK)
                f.compare = op[3]
                mon.equal(f.uvm.get_compare(), rm.UVM_CHECK if op[3] else rm.UVM_NO_CHECK, "compare", "set_compare and get_compare")
            for kk, fs in enumerate(models):
                for f in fs:
                    got = (f.uvm.get_mirrored_value(), f.uvm.get())
                    mon.equal(got, (f.mirrored, f.desired), "values", f"mirrored and desired value of a {f.policy} field after {kind}", op=op, regs=case["regs"])
                    if case["auto"] and not f.stale:
                        mon.equal(got[0], hws[kk].field(f.j), "mirror_hw", f"mirrored value of a {f.policy} field and the hardware after {kind}", op=op)
                    mon.equal(bool(f.uvm.needs_update()), f.mirrored != f.desired or f.spec["vol"], "field_needs_update", "needs_update of a field")
                mon.equal((regs[kk].get_mirrored_value(), regs[kk].get()),
                          (mirror_value(kk), sum(f.desired << f.spec["lsb"] for f in fs)), "reg_values", "mirrored and desired value of a register")
            mon.equal(bool(blk.needs_update()), any(f.mirrored != f.desired or f.spec["vol"] for fs in models for f in fs), "block_needs_update", "needs_update of a block")
            mon.event(kind, [h.value for h in hws])
        mon.nontrivial = wrote > 0 and read > 0
        sys.task.kill()


def seen(f, rights):
    from vp.regmodel import WRITE_ONLY, restricted
    p = restricted(f.policy, rights)
    if p not in WRITE_ONLY and p != "NONE":
        f.stale = False


def mark_stale(fms, hw):
    for f in fms:
        f.stale = hw.field(f.j) != f.mirrored
    hw_sync_once(hw, fms)


def hw_sync_once(hw, fms):
    """the hardware's write-once fields are as written as the model thinks they are"""
    from vp.regmodel import ONCE
    hw.written = {f.j for f in fms if f.policy in ONCE and f.written}


def check_quiet(mon, out, warn=False):
    reps, _ = out.take()
    bad = [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL") or x[0] == "UVM_WARNING" and not warn]
    mon.check(not bad, "quiet", lambda: f"reported: {bad[:2]}")
