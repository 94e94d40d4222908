"""C39: the built-in register and memory tests, on hardware that follows the model and on hardware that does not.

Each case builds a register model with hardware behind its bus and its backdoors, plants at most one fault in the hardware, excludes
some elements, runs one of the built-in sequences and compares the errors it reports and the accesses it makes with what the test is for."""
import itertools

from cocotb.triggers import Timer

from vp.regmodel import POLICIES, WRITE_ONLY, HwReg, restricted

SIM = True
BATCH = 10
CASES = {"quick": 600, "thorough": 8000}
TECHNIQUE = "runtime monitoring: errors reported and bus accesses made by the built-in register and memory tests, on simulated hardware with and without a planted fault"
LEVEL_NOTE = "Random models, exclusions and faults on the real sequences, registers, memories and maps; exploration, no claim beyond what ran."
RULE = ("1-3 nested blocks, 1-5 registers of 1-32 bits with fields of any policy, 0-2 memories of 1-9 words, one of seven sequences, no fault or one of seven; non-trivial: an element was tested; "
        "distinct: hash of the traffic")
REQUIRE = {"bashed_bits": 500, "clean_runs": 100, "detected": 40, "no_backdoor": 40, "read_only": 15, "excluded_bit_bash": 8, "excluded_hw_reset": 4,
           "excluded_mem_access": 6, "excluded_mem_walk": 2, "excluded_reg_access": 12, "fault_None": 60, "fault_alias": 8, "fault_error": 20, "fault_mem_stuck": 8,
           "fault_policy": 8, "fault_reset": 25, "fault_stuck": 16, "test_bit_bash": 30, "test_built_in": 30, "test_hw_reset": 15, "test_mem_access": 15,
           "test_mem_walk": 15, "test_reg_access": 25, "test_reg_mem_access": 15, "tested_bit_bash": 120, "tested_hw_reset": 100, "tested_mem_access": 35,
           "tested_mem_walk": 30, "tested_reg_access": 100, "checked_excluded": 75, "checked_missed": 30, "checked_resets": 100}
ASSUMPTIONS = ["write-once fields are not mapped read-only: whether a backdoor write counts as the first one is not defined"]
_ids = itertools.count()
TESTS = {"hw_reset": 1, "bit_bash": 2, "reg_access": 4, "mem_access": 8, "mem_walk": 32}
SKIP = {"hw_reset": ["NO_REG_TESTS", "NO_REG_HW_RESET_TEST"], "bit_bash": ["NO_REG_TESTS", "NO_REG_BIT_BASH_TEST"], "reg_access": ["NO_REG_TESTS", "NO_REG_ACCESS_TEST"],
        "mem_access": ["NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_ACCESS_TEST"], "mem_walk": ["NO_REG_TESTS", "NO_MEM_TESTS", "NO_MEM_WALK_TEST"]}
# a field of the first policy implemented as one of the second is found by writing both values to each bit and reading them
WRONG = {"RW": ["RO", "WC", "WS", "W1C", "W1S", "W0C", "W0S", "W0T"], "RO": ["RW", "WRC"], "W1C": ["RW"], "W1S": ["RW"]}


def gen(rng, tier):
    maps = []
    nb = rng.choice([1, 1, 2, 3])
    up = None
    for b in range(nb):
        w = rng.choice([1, 2, 4, 4]) if b == 0 else rng.choice([x for x in (1, 2, 4) if x <= maps[up]["bus"]])
        maps.append({"block": b, "base": rng.choice([0, 0, 0x1000]) if b == 0 else 0, "up": None if b == 0 else up, "off": 0x10000 * b if b else 0,
                     "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": w})
        up = rng.randrange(b + 1)
    maps.append({"block": 0, "base": 0x1000000, "up": None, "off": 0, "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": rng.choice([1, 2, 4])})
    regs = []
    for k in range(rng.randint(1, 5)):
        bits = rng.choice([1, 4, 7, 8, 8, 10, 16, 16, 20, 32])
        cuts = sorted(rng.sample(range(1, bits), min(rng.choice([0, 1, 2, 3]), bits - 1)))
        fields = []
        for a, b in zip([0] + cuts, cuts + [bits]):
            if rng.random() < .1 and bits > b - a:
                continue
            fields.append([a, b - a, rng.choice(["RW"] * 12 + ["RO"] * 3 + ["W1C", "W1S"] + POLICIES), rng.getrandbits(b - a), rng.random() < .9])
        if not fields:
            fields = [[0, bits, "RW", rng.getrandbits(bits), True]]
        block = rng.randrange(nb)
        rights = ["RW"] * 8 + ["RO"] * (not any(f[2] in WRITE_ONLY for f in fields)) * 2 + ["WO"] * all(f[2] in ("RW", "WO") for f in fields) * 2
        regs.append({"bits": bits, "fields": fields, "block": block, "rights": rng.choice(rights), "alt": rng.choice(rights) if block == 0 and rng.random() < .3 else None,
                     "backdoor": rng.random() < .8, "junk": rng.getrandbits(bits)})
        if "RO" in (regs[-1]["rights"], regs[-1]["alt"]):       # whether a backdoor write is a W1 field's first is not defined
            regs[-1]["fields"] = [[*f[:2], "RW" if f[2] == "W1" else f[2], *f[3:]] for f in fields]
    mems = []
    for k in range(rng.choice([0, 1, 1, 2])):
        bits, size, block = rng.choice([1, 4, 8, 8, 12, 16, 32, 40]), rng.choice([1, 2, 3, 5, 9]), rng.randrange(nb)
        mems.append({"bits": bits, "size": size, "block": block, "access": "RW" if rng.random() < .8 else "RO", "alt": "RW" if block == 0 and rng.random() < .3 else None,
                     "backdoor": rng.random() < .8, "init": [rng.getrandbits(bits) for _ in range(size)]})
    test = rng.choice(["hw_reset"] * 2 + ["bit_bash"] * 4 + ["reg_access"] * 3 + ["mem_access"] * 2 + ["mem_walk"] * 2 + ["built_in"] * 3 + ["reg_mem_access"] * 2)
    names = ["reg%d" % k for k in range(len(regs))] + ["mem%d" % k for k in range(len(mems))]
    skips = []
    for _ in range(rng.choice([0, 0, 0, 1, 2, 3])):
        who = rng.choice(names * 2 + ["blk%d" % b for b in range(1, nb)] * 3 + ["blk0"])
        mine = SKIP.get(test, ["NO_REG_TESTS"])
        skips.append([who, rng.choice(mine * 2 + ["NO_MEM_ACCESS_TEST", "NO_REG_ACCESS_TEST"] + [a for s in SKIP.values() for a in s if a != "NO_REG_TESTS"])])
    return {"byte": True, "maps": maps, "blocks": [{"parent": -1 if b == 0 else maps[b]["up"]} for b in range(nb)], "regs": regs, "mems": mems, "test": test,
            "mask": rng.randrange(64) if rng.random() < .5 else 0x3f, "skips": skips, "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)], "responses": rng.random() < .3,
            "fault": gen_fault(rng, regs, mems), "single": rng.random() < .25}


def gen_fault(rng, regs, mems):
    opts = []
    for k, r in enumerate(regs):
        for j, (lsb, size, pol, reset, compare) in enumerate(r["fields"]):
            if compare and pol not in WRITE_ONLY:
                opts.append(["reset", k, j, rng.randrange(size)])
            if compare and pol == "RW":
                opts += [["stuck", k, j, rng.randrange(size), rng.randint(0, 1)]] * 2
            if compare and pol in WRONG:
                opts.append(["policy", k, j, rng.choice(WRONG[pol])])
        opts.append(["error", "reg%d" % k])
        for m in range(k):
            if regs[m]["bits"] == r["bits"] and regs[m]["block"] == r["block"] and r["alt"] is None and regs[m]["alt"] is None:
                opts.append(["swap", m, k])
    for k, m in enumerate(mems):
        opts.append(["error", "mem%d" % k])
        if m["access"] == "RW":
            opts += [["mem_stuck", k, rng.randrange(m["size"]), rng.randrange(m["bits"]), rng.randint(0, 1)]] * 3
            if m["size"] > 1:
                opts += [["alias", k, rng.randrange(m["size"] - 1)]] * 3
    return rng.choice(opts) if rng.random() < .55 else None


class FaultyReg(HwReg):
    """a register, or a word of a memory, with a bit stuck at a value"""
    stuck = None

    @property
    def value(self):
        return self._value

    @value.setter
    def value(self, v):
        if self.stuck:
            bit, to = self.stuck
            v = v & ~(1 << bit) | to << bit
        self._value = v


def sequences(run):
    """the sequences under test, with a reset of the hardware as a user would add"""
    from uvm.macros import uvm_object_utils
    from uvm.reg import sequences as sq
    from uvm.reg.sequences.uvm_reg_access_seq import UVMRegMemAccessSeq
    from uvm.reg.sequences.uvm_reg_mem_built_in_seq import UVMRegMemBuiltInSeq
    from uvm.reg.sequences.uvm_reg_hw_reset_seq import UVMRegHWResetSeq
    from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegBitBashSeq
    from uvm.reg.sequences.uvm_reg_access_seq import UVMRegAccessSeq
    from uvm.reg.sequences.uvm_mem_access_seq import UVMMemAccessSeq
    from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemWalkSeq
    del sq
    res = {}
    for name, base in (("hw_reset", UVMRegHWResetSeq), ("bit_bash", UVMRegBitBashSeq), ("reg_access", UVMRegAccessSeq), ("mem_access", UVMMemAccessSeq), ("mem_walk", UVMMemWalkSeq),
                       ("reg_mem_access", UVMRegMemAccessSeq), ("built_in", UVMRegMemBuiltInSeq)):
        if name == "built_in":
            res[name] = base
            continue

        def make(name, base):
            class Own(base):
                async def reset_blk(self, blk):
                    await Timer(1, "NS")
                    run.hw_reset(name, blk)
            Own.__name__ = "Vp" + base.__name__
            return Own
        cls = make(name, base)
        uvm_object_utils(cls)
        base.type_id.set_type_override(cls.get_type(), True)
        res[name] = cls
    return res


class Run:
    current = None
    classes = None

    @classmethod
    def hw_reset(cls, name, blk):
        cls.current(name, blk)


async def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.dpi.uvm_hdl import uvm_hdl
    from uvm.base.uvm_resource_db import UVMResourceDb
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.sequences.uvm_reg_bit_bash_seq import UVMRegSingleBitBashSeq
    from uvm.reg.sequences.uvm_reg_access_seq import UVMRegSingleAccessSeq
    from uvm.reg.sequences.uvm_mem_access_seq import UVMMemSingleAccessSeq
    from uvm.reg.sequences.uvm_mem_walk_seq import UVMMemSingleWalkSeq
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import System
    if Run.classes is None:
        Run.classes = sequences(Run)
    fault = case["fault"] or [None]
    tag = next(_ids)
    log = []                # (test, element, map or "back", write, data)
    phase = [None]          # the test running

    class Backdoor(UVMRegBackdoor):
        def cell(self, rw):
            return hws[self.who][rw.offset]

        async def write(self, rw):
            log.append((phase[0], self.who, "back", True, rw.value[0]))
            self.cell(rw).value = rw.value[0]
            rw.status = rm.UVM_IS_OK

        async def read(self, rw):
            log.append((phase[0], self.who, "back", False, None))
            rw.value = [self.cell(rw).value]
            rw.status = rm.UVM_IS_OK

    class Node:
        """a scope of the hardware, with its registers"""

    class Signal:
        def __init__(self, who):
            self.who = who

        def __int__(self):
            log.append((phase[0], self.who, "back", False, None))
            return hws[self.who].value

        @property
        def value(self):
            return int(self)

        @value.setter
        def value(self, v):
            log.append((phase[0], self.who, "back", True, v))
            hws[self.who].value = v

    with Output() as out:
        dut = Node()
        uvm_hdl.set_dut(dut)
        nodes = []
        for b, spec in enumerate(case["blocks"]):
            nodes.append(Node())
            setattr(nodes[spec["parent"]] if b else dut, f"b{b}", nodes[b])
        sys = System(mon, tag, case["delays"], case["responses"])
        bmodel = Model(case)
        blks, maps = [], []
        for b, spec in enumerate(case["blocks"]):
            blk = UVMRegBlock(f"blk{tag}_{b}")
            blk.configure(blks[spec["parent"]] if b else None, f"b{b}")
            m = case["maps"][b]
            mp = blk.create_map(f"map{b}", m["base"], m["bus"], getattr(rm, m["endian"]), True)
            blk.set_default_map(mp)
            if b:
                maps[m["up"]].add_submap(mp, m["off"])
            blks.append(blk)
            maps.append(mp)
        ALT = len(maps)
        m = case["maps"][ALT]
        alt_used = any(e["alt"] for e in case["regs"] + case["mems"])
        if alt_used:
            maps.append(blks[0].create_map("alt", m["base"], m["bus"], getattr(rm, m["endian"]), True))
        hws, els, where = {}, {}, {}          # where: bus address -> (element, map, word of the register)
        for k, spec in enumerate(case["regs"]):
            who = f"reg{k}"
            r = UVMReg(who + "_", spec["bits"])
            r.configure(blks[spec["block"]], None, who if spec["backdoor"] else "")
            pol = [f[2] for f in spec["fields"]]
            if fault[0] == "policy" and fault[1] == k:
                pol[fault[2]] = fault[3]
            hw = FaultyReg([(f[0], f[1], p) for f, p in zip(spec["fields"], pol)])
            if fault[0] == "stuck" and fault[1] == k:
                hw.stuck = (spec["fields"][fault[2]][0] + fault[3], fault[4])
            for j, (lsb, size, p, reset, compare) in enumerate(spec["fields"]):
                f = UVMRegField(f"f{j}")
                f.configure(r, size, lsb, p, False, reset, True, True, False)
                f.set_compare(rm.UVM_CHECK if compare else rm.UVM_NO_CHECK)
            hws[who], els[who] = hw, r
            setattr(nodes[spec["block"]], who, Signal(who))
            ways = [(spec["block"], 0x40 * k, spec["rights"])] + ([(ALT, 0x40 * k, spec["alt"])] if spec["alt"] else [])
            for mi, at, rights in ways:
                maps[mi].add_reg(r, at, rights)
                w = bmodel.width(mi)
                for i, a in enumerate(bmodel.addrs(mi, at, (spec["bits"] + 7) // 8)):
                    assert a not in sys.decode
                    sys.decode[a] = (hw, w * 8 * i, w, rights)
                    where[a] = (who, mi, w * 8 * i)
                    if fault == ["error", who] and i == 0:
                        sys.fail.add(a)
        if fault[0] == "swap":
            for a, (who, mi, lsb) in where.items():
                if who in ("reg%d" % fault[1], "reg%d" % fault[2]):
                    o = "reg%d" % (fault[1] + fault[2] - int(who[3:]))
                    sys.decode[a] = (hws[o], *sys.decode[a][1:])
        for k, spec in enumerate(case["mems"]):
            who = f"mem{k}"
            x = UVMMem(who + "_", spec["size"], spec["bits"], spec["access"])
            x.configure(blks[spec["block"]])
            hw = [FaultyReg([(0, spec["bits"], spec["access"])], v) for v in spec["init"]]
            if fault[0] == "mem_stuck" and fault[1] == k:
                hw[fault[2]].stuck = (fault[3], fault[4])
                hw[fault[2]].value = hw[fault[2]].value
            hws[who], els[who] = hw, x
            at = 0x1000 * (k + 1)
            for mi in [spec["block"]] + [ALT] * bool(spec["alt"]):
                maps[mi].add_mem(x, at, "RW")
                w, nbytes, bus = bmodel.width(mi), (spec["bits"] + 7) // 8, case["maps"][mi]["bus"]
                for o in range(spec["size"]):
                    cell = hw[o - 1 if fault == ["alias", k, o - 1] else o]
                    for i, a in enumerate(bmodel.addrs(mi, at + -(-nbytes // bus) * bus * o, nbytes)):
                        assert a not in sys.decode
                        sys.decode[a] = (cell, w * 8 * i, w)
                        where[a] = (who, mi, w * 8 * i)
                        if fault == ["error", who] and o == spec["size"] - 1 and i == 0:
                            sys.fail.add(a)
        for who, e in els.items():
            spec = case[who[:3] + "s"][int(who[3:])]
            if spec["backdoor"] and who[:3] == "mem":
                bd = Backdoor("bd_" + who)
                bd.who = who
                e.set_backdoor(bd)
        blks[0].lock_model()
        for mi in [0] + [ALT] * alt_used:
            maps[mi].set_sequencer(sys.sqr, sys.adapter)
            maps[mi].set_auto_predict(True)
        names = {w: e.get_full_name() for w, e in els.items()}

        def init():
            for k, spec in enumerate(case["regs"]):
                hw = hws[f"reg{k}"]
                hw.value = sum(f[3] << f[0] for f in spec["fields"]) ^ (1 << spec["fields"][fault[2]][0] + fault[3] if fault[0] == "reset" and fault[1] == k else 0)
                hw.written, hw.dirty = set(), set()

        for k, spec in enumerate(case["regs"]):     # state from before the reset
            hws[f"reg{k}"].value = spec["junk"] & sum((1 << f[1]) - 1 << f[0] for f in spec["fields"])
            els[f"reg{k}"].set(spec["junk"] >> 1)
        real_serve = sys.serve

        def serve(f):
            who, mi, lsb = where.get(f["addr"], (None, None, 0))
            log.append((phase[0], who, mi, f["write"], f["data"] << lsb))
            r = real_serve(f)
            if who and who[:3] == "reg" and isinstance(sys.decode[f["addr"]][0], HwReg):
                last = max(a for a in where if where[a][:2] == (who, mi) and where[a][2] == max(where[b][2] for b in where if where[b][:2] == (who, mi)))
                if f["addr"] == last:
                    sys.decode[f["addr"]][0].done()
            return r
        sys.serve = serve
        for who, attr in case["skips"]:
            full = blks[int(who[3:])].get_full_name() if who[:3] == "blk" else names[who]
            UVMResourceDb.set("REG::" + full, attr, 1)
            if who[:3] == "blk":
                UVMResourceDb.set("REG::" + full + ".*", attr, 1)
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")

        resets = []

        def on_reset(name, blk):
            phase[0] = name if name != "reg_mem_access" else "reg_access"
            resets.append((name, blk is blks[0]))
            if name == "reg_mem_access" and (len(resets) > 1 or any(w == "blk0" and a in SKIP["reg_access"] for w, a in case["skips"])):
                phase[0] = "mem_access"
            init()
        Run.current = on_reset
        test = case["test"]
        single = case["single"] and test in ("bit_bash", "reg_access", "mem_access", "mem_walk")
        if single:
            # one element, tested by the sequence for single elements
            cls = {"bit_bash": UVMRegSingleBitBashSeq, "reg_access": UVMRegSingleAccessSeq, "mem_access": UVMMemSingleAccessSeq, "mem_walk": UVMMemSingleWalkSeq}[test]
            pool = [w for w in els if w[:3] == test[:3] or test == "bit_bash" and w[:3] == "reg"]
            if not pool:
                single = False
        if single:
            target = pool[tag % len(pool)]
            seq = cls("seq")
            setattr(seq, "rg" if target[:3] == "reg" else "mem", els[target])
            init()
            blks[0].reset()
            phase[0] = test
        else:
            seq = Run.classes[test]("seq")
            seq.model = blks[0]
            if test == "built_in":
                seq.tests = case["mask"]
        await seq.start(None)
        reps, _ = out.take()
    mon.count("test_" + test)
    mon.count("fault_" + str(fault[0]))
    judge(case, mon, test, target if single else None, fault, names, log, reps, resets)


def parents(case, b):
    res = []
    while b >= 0:
        res.append("blk%d" % b)
        b = case["blocks"][b]["parent"]
    return res


def judge(case, mon, test, target, fault, names, log, reps, resets):
    tests = [test] if test in TESTS else ["reg_access", "mem_access"] if test == "reg_mem_access" else [t for t in TESTS if case["mask"] & TESTS[t]]
    ALT = len(case["maps"]) - 1
    skipped = lambda t, whos: any(w in whos and a in SKIP[t] for w, a in case["skips"])  # noqa
    errors = [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")]
    must, may = set(), set()
    count = 0
    for t in tests:
        kind = "reg" if t in ("hw_reset", "bit_bash", "reg_access") else "mem"
        for k, spec in enumerate(case[kind + "s"]):
            who = "%s%d" % (kind, k)
            here = [x for x in log if x[0] == t and x[1] == who]
            ways = [(spec["block"], spec.get("rights", "RW"))] + ([(ALT, spec["alt"])] if spec["alt"] else [])
            whos = [who] + parents(case, spec["block"])
            off = skipped(t, whos) or target not in (None, who)
            back = t in ("reg_access", "mem_access")
            if off:
                mon.count("excluded_" + t, target is None)
                mon.equal(here, [], "excluded", "accesses to an element excluded from the test", test=t, element=who, skips=case["skips"])
                continue
            if back and not spec["backdoor"]:
                mon.count("no_backdoor")
                mon.equal(here, [], "no-backdoor", "accesses to an element without a backdoor", test=t, element=who)
                if target:
                    must.add(who)
                continue
            pols = [[restricted(f[2], r) for f in spec.get("fields", [])] for _, r in ways]
            if t == "reg_access" and any(all(p in ("RO",) for p in ps) for ps in pols):
                mon.count("read_only")
                may.add(who) if fault[0] else None
                continue
            count += 1
            mon.count("tested_" + t)
            for n, (mi, rights) in enumerate(ways):
                seen = [x for x in here if x[2] == mi]
                if t == "mem_walk" and spec["access"] == "RO":
                    continue
                if t in ("hw_reset", "reg_access") or kind == "mem":
                    mon.check(any(not x[3] for x in seen), "not-read", "every element under test is read through each of its maps", test=t, element=who, way=n)
                if t == "reg_access" or kind == "mem":
                    mon.check(any(x[3] for x in seen), "not-written", "every element under test is written through each of its maps", test=t, element=who, way=n)
                if t == "bit_bash" and fault != ["error", who]:
                    for (lsb, size, pol, _, compare), p in zip(spec["fields"], pols[n]):
                        if compare and p == "RW":
                            words = [x[4] for x in seen if x[3]]
                            both = (1 << lsb + size) - (1 << lsb)
                            ones = zeros = 0
                            for w in words:
                                ones |= w
                                zeros |= ~w
                            mon.check(both & ones & zeros == both, "bits", "every bit under test is written with both values through each map", element=who, lsb=lsb, size=size)
                            mon.count("bashed_bits", size)
            # the fault
            readable = [n for n, (mi, r) in enumerate(ways) if r != "WO"]
            full = [n for n, (mi, r) in enumerate(ways) if r == "RW"]
            if fault == ["error", who]:
                if t == "mem_walk" and spec["access"] == "RO":
                    continue
                (must if t != "bit_bash" else may).add(who)
            elif kind == "reg" and fault[0] in ("reset", "stuck", "policy") and fault[1] == k:
                f = spec["fields"][fault[2]]
                if fault[0] == "reset" and t == "hw_reset" and readable:
                    must.add(who)
                elif fault[0] == "stuck" and t == "hw_reset" and readable and f[3] >> fault[3] & 1 != fault[4]:
                    must.add(who)
                elif fault[0] == "stuck" and t == "hw_reset":
                    pass
                elif fault[0] == "stuck" and full:
                    must.add(who)
                elif fault[0] == "policy" and t == "bit_bash" and full:
                    must.add(who)
                else:
                    may.add(who)
            elif kind == "reg" and fault[0] == "swap" and k in fault[1:]:
                may |= {"reg%d" % fault[1], "reg%d" % fault[2]}
                if t == "reg_access" and full and any(f[2] == "RW" and f[4] for f in spec["fields"]):
                    must.add(who)
            elif kind == "mem" and fault[0] == "alias" and fault[1] == k:
                must.add(who)
            elif kind == "mem" and fault[0] == "mem_stuck" and fault[1] == k:
                if t == "mem_access" or (~fault[2] >> fault[3] & 1) != fault[4]:
                    must.add(who)
    mon.nontrivial = count > 0
    mon.event("log", str(log))
    texts = [x[2] for x in errors]
    for who in must:
        mon.count("detected")
        mon.check(any(names[who] in x for x in texts), "missed", "a fault in the hardware is reported with the name of the element", fault=fault, element=who, test=test, mask=case["mask"], errors=texts[:3])
    clean = [x for x in texts if not any(names[w] in x for w in must | may)]
    if not must | may:
        mon.count("clean_runs", count > 0)
    mon.equal(clean[:3], [], "false-error", "errors reported about hardware that follows the model", fault=fault, test=test, mask=case["mask"])
    if target is None:
        for t in tests:
            pass
        mon.check(all(x[1] for x in resets), "reset-block", "the reset is for the model under test")
        want = [test] if test in TESTS else ["reg_mem_access"] * 2 if test == "reg_mem_access" else tests
        if not any(w[:3] == "blk" for w, _ in case["skips"]):
            mon.equal([x[0] for x in resets if test != "reg_mem_access" or x[0] == "reg_mem_access"], want, "resets", "one reset before each test", test=test, mask=case["mask"])
