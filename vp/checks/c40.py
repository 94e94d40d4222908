"""C40: backdoor accesses by HDL path, on a stand-in for the simulated design that knows every object by its path.

Each case builds blocks, registers and memories with HDL paths of two kinds (roots, several paths, slices), computes the full paths by
itself, builds the objects they name (some left out), and compares after every access the state of every object of the design, the
status, the value read, the mirror and the reports with what the paths say."""
import itertools

import cocotb

from vp.regmodel import CLEARS_ON_READ, POLICIES, SETS_ON_READ, WRITE_ONLY, read_field, write_field

SIM = True
BATCH = 20
CASES = {"quick": 900, "thorough": 15000}
TECHNIQUE = "runtime monitoring: state of every object of a stand-in design and the results of each access compared with an independent model of the paths"
LEVEL_NOTE = "Random paths and accesses on the real registers, memories and blocks; exploration, no claim beyond what ran."
RULE = ("1-4 nested blocks with 0-3 paths of two kinds and root paths, 1-3 registers and 0-2 memories with 1-3 alternative paths of 1-4 slices, 5-30 accesses, "
        "changes of the design in between, missing and differing objects; non-trivial: an access reached two objects; distinct: hash of the results")
REQUIRE = {"reg_objects": 5000, "reg_write": 300, "reg_read": 300, "reg_mirror": 150, "reg_check": 150, "updated": 60, "reg_missing": 100, "reg_differ": 40,
           "mem_poke": 40, "mem_peek": 40, "mem_write": 40, "mem_read": 40, "burst": 40, "mem_missing": 20, "mem_no_path": 60, "no_path": 300,
           "policy_effect": 150, "read_effect": 80, "design_changes": 500, "differs_read": 80, "paths_several": 200, "paths_error": 300, "add_path": 60}
ASSUMPTIONS = ["the design is a stand-in with the attribute and index access of cocotb handles",
               "the mirror of fields that cannot be read, or that change when read, is not checked after a backdoor read"]
_ids = itertools.count()
KINDS = ["RTL", "GATES"]
PREFIX = ["dut", "tb"]          # scopes that are not objects below the design handle


def slices(rng, bits, whole):
    """[(offset, size)] from some cut of the bits"""
    if whole:
        return [[-1, -1]]
    cuts = sorted(rng.sample(range(1, bits), min(rng.choice([0, 1, 1, 2, 3]), bits - 1)))
    res = [[a, b - a] for a, b in zip([0] + cuts, cuts + [bits])]
    rng.shuffle(res)
    return res


def gen(rng, tier):
    blocks = []
    for b in range(rng.choice([1, 1, 2, 3, 4])):
        paths = {}
        for kind in KINDS:
            n = rng.choice([0, 1, 1, 1, 2, 3]) if kind == "RTL" else rng.choice([0, 0, 1, 1, 2])
            paths[kind] = [rng.choice(["%s", "%s", "%s.u", "core.%s"]) % f"b{b}{kind[0].lower()}{i}" for i in range(n)]
        root = {}
        for kind in KINDS:
            if rng.random() < (.4 if b == 0 else .1):
                root[kind] = rng.choice(["dut", "dut", "tb.dut", f"r{b}{kind[0].lower()}", f"dut.r{b}{kind[0].lower()}"])
        blocks.append({"parent": rng.randrange(b) if b else -1, "paths": paths, "root": root, "configured": rng.random() < .5,
                       "default": rng.choice(["RTL"] * 4 + ["GATES"] * 2 + [""] * (b > 0))})
    els = []
    for k in range(rng.randint(1, 3) + rng.choice([0, 0, 1, 2])):
        mem = k >= 1 and rng.random() < .4
        bits = rng.choice([1, 4, 8, 8, 12, 16, 32, 40])
        e = {"block": rng.randrange(len(blocks)), "mem": mem, "bits": bits, "kinds": {}}
        for kind in KINDS:
            if rng.random() < (.85 if kind == "RTL" else .4):
                e["kinds"][kind] = [slices(rng, bits, rng.random() < .4) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        e["configured"] = rng.random() < .5
        if mem:
            e.update(size=rng.choice([1, 2, 5, 12]), access=rng.choice(["RW", "RW", "RO"]))
        else:
            cuts = sorted(rng.sample(range(1, bits), min(rng.choice([0, 1, 2, 3]), bits - 1)))
            plain = rng.random() < .4
            e["fields"] = [[a, c - a, "RW" if plain else rng.choice(POLICIES), rng.getrandbits(c - a), rng.random() < .9]
                           for a, c in zip([0] + cuts, cuts + [bits]) if rng.random() < .9] or [[0, bits, "RW", 0, True]]
        els.append(e)
    ops = []
    for _ in range(rng.randint(5, 30)):
        k = rng.randrange(len(els))
        e = els[k]
        if rng.random() < .2:
            op = ["paths", rng.choice(["", *KINDS, "NONE"]), rng.choice([".", ".", "/"])]
        elif rng.random() < .2:
            op = ["design", rng.getrandbits(30), rng.random() < .25]
        elif e["mem"]:
            n = rng.choice([1, 1, 2, 4])
            n = min(n, e["size"])
            at = rng.randint(0, e["size"] - n)
            op = [rng.choice(["write", "read", "poke", "peek", "burst_write", "burst_read"]), at, [rng.getrandbits(e["bits"]) for _ in range(n)],
                  rng.choice(["", "", *KINDS, "NONE"])]
        else:
            op = [rng.choice(["write", "write", "read", "read", "mirror", "check", "update"]), rng.getrandbits(e["bits"] + rng.choice([0, 0, 3]))]
        ops.append([k, op, rng.random() < .3])
    return {"blocks": blocks, "els": els, "ops": ops, "missing": rng.choice([0, 0, 0, 1, 2]), "pick": rng.getrandbits(30), "indexed": rng.random() < .3,
            "check": rng.random() < .5, "junk": rng.getrandbits(64)}


class Paths:
    """the full paths of the case, computed from its description"""

    def __init__(self, case):
        self.case = case

    def default(self, b):
        d = self.case["blocks"][b]
        return d["default"] if d["default"] or d["parent"] < 0 else self.default(d["parent"])

    def own(self, b, kind):
        """the paths the block has of the kind"""
        d = self.case["blocks"][b]
        p = list(d["paths"].get(kind, []))
        if kind == "RTL" and not (d["configured"] and p):
            p = [""] + p            # configure() without a path
        return p

    def block(self, b, kind, sep="."):
        """(full paths, number of blocks without a path of the kind)"""
        d = self.case["blocks"][b]
        if kind in d["root"]:
            return [d["root"][kind]], 0
        own = self.own(b, kind)
        if not own:
            return [], 1
        up, errors = self.block(d["parent"], kind, sep) if d["parent"] >= 0 else ([], 0)
        if not up:
            return [p for p in own if p], errors
        return [u + sep + p if p else u for p in own for u in up], errors

    def name(self, k, kind, c, s):
        return f"e{k}{kind[0].lower()}{c}s{s}"

    def element(self, k, kind, sep="."):
        """(list of alternatives, each a list of (path, offset, size), number of errors)"""
        e = self.case["els"][k]
        if kind not in e["kinds"]:
            return [], 1
        up, errors = self.block(e["block"], kind, sep)
        return [[(u + sep + self.name(k, kind, c, s), off, size) for s, (off, size) in enumerate(alt)]
                for c, alt in enumerate(e["kinds"][kind]) for u in up], errors


class Design:
    """objects by path"""

    def __init__(self, indexed):
        self.values, self.width = {}, {}
        design = self

        class Signal:
            def __init__(self, path):
                self.path = path

            def __int__(self):
                return design.values[self.path]

            @property
            def value(self):
                return int(self)

            @value.setter
            def value(self, v):
                design.values[self.path] = v

        class Array:
            def __init__(self):
                self.items = {}

            def __getitem__(self, i):
                if i not in self.items:
                    raise IndexError(i)
                return self.items[i]

        class Scope:
            def __init__(self):
                self.__dict__["objects"] = {}

            def __getattr__(self, name):
                if name not in self.objects:
                    raise AttributeError(name)
                return self.objects[name]
        self.Signal, self.Array, self.Scope, self.indexed = Signal, Array, Scope, indexed
        self.top = Scope()

    def add(self, path, width, value, index=None):
        parts = path.split(".")
        while parts[0] in PREFIX:
            parts.pop(0)
        key = path if index is None else f"{path}[{index}]"
        at = self.top
        for p in parts[:-1]:
            at = at.objects.setdefault(p, self.Scope())
        if index is None:
            at.objects[parts[-1]] = self.Signal(key)
        elif self.indexed:
            at.objects.setdefault(parts[-1], self.Array()).items[index] = self.Signal(key)
        else:
            at.objects[f"{parts[-1]}[{index}]"] = self.Signal(key)
        self.values[key] = value
        self.width[key] = width


async def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.dpi.uvm_hdl import uvm_hdl
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from uvm.reg.uvm_reg_map import UVMRegMap
    from vp.monitor import Output
    from vp.regmodel import HwReg, System
    tag = next(_ids)
    model = Paths(case)
    hooks = []

    class Reg(UVMReg):
        async def pre_write(self, rw):
            hooks.append(("pre_write", rw.path))

        async def post_write(self, rw):
            hooks.append(("post_write", rw.path))

        async def pre_read(self, rw):
            hooks.append(("pre_read", rw.path))

        async def post_read(self, rw):
            hooks.append(("post_read", rw.path))

    # -- the design
    design = Design(case["indexed"])
    keys = [[] for _ in case["els"]]            # objects of each element
    junk = case["junk"]
    for k, e in enumerate(case["els"]):
        base = [junk * (k + 3) + 0x9E3779B97F4A7C15 * i >> 7 & (1 << e["bits"]) - 1 for i in range(e.get("size", 1))]
        e_mask = sum((1 << f[1]) - 1 << f[0] for f in e["fields"]) if not e["mem"] else (1 << e["bits"]) - 1
        for kind in KINDS:
            for alt in model.element(k, kind)[0]:
                for path, off, size in alt:
                    for i in range(e.get("size", 1)):
                        v = base[i] & e_mask
                        if off >= 0:
                            v = v >> off & (1 << size) - 1
                        design.add(path, size if off >= 0 else e["bits"], v, i if e["mem"] else None)
                        keys[k].append(path if not e["mem"] else f"{path}[{i}]")
    gone = set()
    every = sorted(design.values)
    for n in range(case["missing"] if every else 0):
        gone.add(every[(case["pick"] >> 3 * n) % len(every)])
    for key in gone:
        parts = key.split(".")
        while parts[0] in PREFIX:
            parts.pop(0)
        at = design.top
        for p in parts[:-1]:
            at = at.objects[p]
        if case["indexed"] and key[-1] == "]":
            at.objects[parts[-1].split("[")[0]].items.pop(int(parts[-1][:-1].split("[")[1]))
        else:
            at.objects.pop(parts[-1])
        del design.values[key]

    was = uvm_hdl.dut, cocotb.SIM_NAME, UVMRegMap.backdoor().get_check_on_read()
    out = Output()
    out.__enter__()
    try:
        if case["indexed"]:
            cocotb.SIM_NAME = "Verilator"
        uvm_hdl.set_dut(design.top)
        cocotb.SIM_NAME = was[1]
        UVMRegMap.backdoor().set_check_on_read(case["check"])
        # -- the register model
        blks = []
        for b, d in enumerate(case["blocks"]):
            blk = UVMRegBlock(f"blk{tag}_{b}")
            rtl = list(d["paths"].get("RTL", []))
            first = rtl.pop(0) if d["configured"] and rtl else ""
            blk.configure(blks[d["parent"]] if b else None, first)
            for p in rtl:
                blk.add_hdl_path(p)
            for p in d["paths"].get("GATES", []):
                blk.add_hdl_path(p, "GATES")
            for kind, p in d["root"].items():
                blk.set_hdl_path_root(p, kind)
            if d["default"] != "RTL":
                blk.set_default_hdl_path(d["default"])
            mon.equal(blk.get_default_hdl_path(), model.default(b), "default-kind", "default kind of a block")
            mp = blk.create_map(f"map{b}", 0, 4, rm.UVM_LITTLE_ENDIAN, True)
            blk.set_default_map(mp)
            if b:
                blks[d["parent"]].get_default_map().add_submap(mp, 0x10000 * b)
            blks.append(blk)
        sys = System(mon, tag)
        els, hws = [], []
        for k, e in enumerate(case["els"]):
            mp = blks[e["block"]].get_default_map()
            whole = e["kinds"].get("RTL", [[[0, 0]]])[0] == [[-1, -1]] and e["configured"]
            hws.append(None)
            if e["mem"]:
                x = UVMMem(f"mem{k}", e["size"], e["bits"], e["access"])
                x.configure(blks[e["block"]], model.name(k, "RTL", 0, 0) if whole else "")
                mp.add_mem(x, 0x1000 * (k + 1), "RW")
            else:
                x = Reg(f"reg{k}", e["bits"])
                x.configure(blks[e["block"]], None, model.name(k, "RTL", 0, 0) if whole else "")
                for j, (lsb, size, pol, reset, compare) in enumerate(e["fields"]):
                    f = UVMRegField(f"f{j}")
                    f.configure(x, size, lsb, pol, False, reset, True, True, False)
                    f.set_compare(rm.UVM_CHECK if compare else rm.UVM_NO_CHECK)
                mp.add_reg(x, 0x100 * k, "RW")
                hws[k] = HwReg([(f[0], f[1], f[2]) for f in e["fields"]])
                at = 0
                up = e["block"]
                while up > 0:
                    at += 0x10000 * up
                    up = case["blocks"][up]["parent"]
                for w in range((e["bits"] + 31) // 32):
                    sys.decode[at + 0x100 * k + 4 * w] = (hws[k], 32 * w, 4)
            for kind, alts in e["kinds"].items():
                for c, alt in enumerate(alts):
                    if kind == "RTL" and c == 0 and whole:
                        continue
                    if (k + c) % 2 and not e["mem"]:        # all at once
                        parts = [rm.uvm_hdl_path_slice() for _ in alt]
                        for s, (off, size) in enumerate(alt):
                            parts[s].path, parts[s].offset, parts[s].size = model.name(k, kind, c, s), off, size
                        x.add_hdl_path(parts, kind)
                        mon.count("add_path")
                        continue
                    for s, (off, size) in enumerate(alt):
                        x.add_hdl_path_slice(model.name(k, kind, c, s), off, size, s == 0, kind)
            els.append(x)
        blks[0].lock_model()
        mp = blks[0].get_default_map()
        mp.set_sequencer(sys.sqr, sys.adapter)
        mp.set_auto_predict(True)
        blks[0].reset()
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", "building the model reports no error", reports=reps[:4])
        await Accesses(case, mon, rm, model, design, gone, blks, els, hws, keys, sys, out, hooks).all()
    finally:
        uvm_hdl.dut = was[0]
        if case["indexed"]:
            uvm_hdl.SIM_NAME = was[1]
        UVMRegMap.backdoor().set_check_on_read(was[2])
        out.__exit__(None, None, None)


class Accesses:
    def __init__(self, *a):
        (self.case, self.mon, self.rm, self.model, self.design, self.gone, self.blks, self.els, self.hws, self.keys, self.sys, self.out, self.hooks) = a
        self.want = dict(self.design.values)
        self.mirror = {k: [f[3] for f in e["fields"]] for k, e in enumerate(self.case["els"]) if not e["mem"]}
        self.written = set()

    # -- what the paths say
    def read_objects(self, k, kind, i=None):
        """('missing' | 'differ' | value, number of objects)"""
        e = self.case["els"][k]
        vals = []
        n = 0
        for alt in self.model.element(k, kind)[0]:
            v = 0
            for path, off, size in alt:
                key = path if i is None else f"{path}[{i}]"
                n += 1
                if key not in self.want:
                    return "missing", n
                v |= self.want[key] << max(off, 0)
            vals.append(v & (1 << e["bits"]) - 1)
            if vals[-1] != vals[0]:
                return "differ", n
        return vals[0], n

    def put_objects(self, k, kind, v, i=None):
        ok = True
        for alt in self.model.element(k, kind)[0]:
            for path, off, size in alt:
                key = path if i is None else f"{path}[{i}]"
                if key in self.want:
                    self.want[key] = v if off < 0 else v >> off & (1 << size) - 1
                else:
                    ok = False
        return ok

    def judge(self, what, got, errors, **witness):
        """compares the design, the reports and the result (got, expected)"""
        mon = self.mon
        reps, _ = self.out.take()
        bad = [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")]
        mon.equal(len(bad), errors, "reports", "errors reported by an access", what=what, texts=[x[2] for x in bad][:3], **witness)
        mon.equal(self.design.values, self.want, "design", "objects of the design after an access", what=what, **witness)
        if got is not None:
            mon.equal(got[0], got[1], "result", "status and values of an access", what=what, **witness)
        for k, m in self.mirror.items():
            now = [self.els[k].get_field_by_name(f"f{j}").get_mirrored_value() for j in range(len(m))]
            want = [x if y is None else y for x, y in zip(now, m)]
            mon.equal(now, want, "mirror", "mirrored values of the fields after an access", what=what, mirror_of=k, **witness)
            self.mirror[k] = now
        mon.event(what, str(got))
        return bad

    async def all(self):
        for k, op, by_default in self.case["ops"]:
            e = self.case["els"][k]
            b = e["block"]
            kind = self.model.default(b)
            self.hooks.clear()
            self.sys.take()
            if op[0] == "paths":
                self.paths(k, *op[1:])
            elif op[0] == "design":
                self.change(k, *op[1:])
            elif self.model.element(k, kind)[1] and kind in e["kinds"]:
                self.mon.count("no_full_path")          # some block above has no path of the kind
            elif e["mem"]:
                await self.mem(k, op, by_default)
            elif kind in e["kinds"] and not self.model.element(k, kind)[0]:
                self.mon.count("no_full_path")
            elif kind in e["kinds"]:
                await self.reg(k, kind, op, by_default)
            else:
                await self.no_path(k, op)

    def paths(self, k, kind, sep):
        mon, e = self.mon, self.case["els"][k]
        x, blk = self.els[k], self.blks[e["block"]]
        real = kind or self.model.default(e["block"])
        mon.equal(bool(x.has_hdl_path(kind)), real in e["kinds"], "has-path", "whether an element has a path of a kind", kind=kind)
        mon.equal(bool(blk.has_hdl_path(kind)), bool(self.model.own(e["block"], real)), "has-path", "whether a block has a path of a kind", kind=kind)
        got = []
        blk.get_full_hdl_path(got, kind, sep)
        want, errors = self.model.block(e["block"], real, sep)
        self.judge("block-paths", (got, want), errors, kind=kind, sep=sep)
        got = []
        x.get_full_hdl_path(got, kind, sep)
        want, errors = self.model.element(k, real, sep)
        self.judge("element-paths", ([[(s.path, s.offset, s.size) for s in c.slices] for c in got], want), errors, kind=kind, sep=sep)
        mon.count("paths_several", len(want) > 1)
        mon.count("paths_error", errors > 0)
        mon.equal(blk.is_hdl_path_root(kind), real in self.case["blocks"][e["block"]]["root"], "is-root", "whether a block is the root of a kind", kind=kind)

    def change(self, k, rnd, one):
        """the design changes by itself: every path of the element alike, or one object only"""
        e = self.case["els"][k]
        mine = [x for x in self.keys[k] if x in self.want]
        if not mine:
            return
        self.mon.count("design_changes")
        mask = sum((1 << f[1]) - 1 << f[0] for f in e["fields"]) if not e["mem"] else (1 << e["bits"]) - 1
        if one:
            key = mine[rnd % len(mine)]
            bit = 1 << (rnd >> 8) % self.design.width[key]
            if not e["mem"]:
                off = next(off for kind in KINDS for alt in self.model.element(k, kind)[0] for p, off, _ in alt if p == key)
                bit &= mask >> max(off, 0)
            self.design.values[key] = self.want[key] = self.want[key] ^ bit
            return
        i = rnd % e["size"] if e["mem"] else None
        v = rnd * 0x9E3779B97F4A7C15 >> 9 & mask
        for kind in KINDS:
            self.put_objects(k, kind, v, i)
        self.design.values.update(self.want)

    async def reg(self, k, kind, op, by_default):
        mon, e, x, rm = self.mon, self.case["els"][k], self.els[k], self.rm
        blk = self.blks[e["block"]]
        old = blk.default_path
        how = rm.UVM_BACKDOOR
        if by_default:
            blk.default_path, how = rm.UVM_BACKDOOR, rm.UVM_DEFAULT_PATH
        what, v = op
        status, value = [], []
        found, n = self.read_objects(k, kind)
        mon.count("reg_objects", n)
        mon.nontrivial = mon.nontrivial or n > 1
        mirror = self.mirror[k]
        fails = found in ("missing", "differ")
        errors = int(found == "differ")
        mon.count("reg_" + (found if fails else what))
        ends = {"write": ["pre_write", "post_write"], "read": ["pre_read", "post_read"]}
        if what == "update":
            plain = all(f[2] == "RW" for f in e["fields"])
            if not plain or fails:
                blk.default_path = old
                return
            x.set(v & (1 << e["bits"]) - 1)
            self.out.take()
            want = [v >> f[0] & (1 << f[1]) - 1 for f in e["fields"]]
            need = want != mirror
            await x.update(status, how)
            if need:
                self.put_objects(k, kind, sum(w << f[0] for w, f in zip(want, e["fields"])))
                self.mirror[k] = want
            mon.count("updated", need)
            hooks = ends["write"] if need else []
            res = (status, [rm.UVM_IS_OK])
        elif what == "write":
            await x.write(status, v, how)
            if not fails:
                want = []
                for j, (lsb, size, pol, _, _) in enumerate(e["fields"]):
                    want.append(write_field(pol, size, found >> lsb & (1 << size) - 1, v >> lsb & (1 << size) - 1, k in self.written))
                self.put_objects(k, kind, sum(w << f[0] for w, f in zip(want, e["fields"])))
                self.mirror[k] = want
                self.written.add(k)
                mon.count("policy_effect", any(f[2] not in ("RW", "WO") for f in e["fields"]))
            hooks = ends["write"][:1 if fails else 2]
            res = (status, [rm.UVM_NOT_OK if fails else rm.UVM_IS_OK])
        else:
            seen = None
            if what == "read":
                await x.read(status, value, how)
            else:
                await x.mirror(status, rm.UVM_CHECK if what == "check" else rm.UVM_NO_CHECK, how)
            if not fails:
                seen = after = 0
                differs = False
                new = []
                for j, (lsb, size, pol, _, compare) in enumerate(e["fields"]):
                    f = found >> lsb & (1 << size) - 1
                    r = 0 if pol in WRITE_ONLY else f
                    seen |= r << lsb
                    after |= read_field(pol, size, f) << lsb
                    if compare and pol not in WRITE_ONLY and r != mirror[j]:
                        differs = True
                    new.append(None if pol in WRITE_ONLY or pol in CLEARS_ON_READ or pol in SETS_ON_READ else f)
                self.put_objects(k, kind, after) if after != found else None
                mon.count("read_effect", after != found)
                self.mirror[k] = new
                errors += differs * (self.case["check"] + (what == "check"))
                mon.count("differs_" + what, differs)
            hooks = ends["read"]
            if what == "read":
                res = ((status, value if not fails else None), ([rm.UVM_NOT_OK if fails else rm.UVM_IS_OK], [seen] if not fails else None))
            else:
                res = (status, [rm.UVM_NOT_OK if fails else rm.UVM_IS_OK])
        if fails and what != "write":
            self.mirror[k] = [None] * len(mirror)
        blk.default_path = old
        # after a differing or missing object only the status and the design count
        bad = self.judge(what, res, errors, element=k, kind=kind, found=found)
        mon.check(all(x.get_full_name() in t[2] for t in bad), "name", "an error about an access names the register", texts=[t[2] for t in bad][:2])
        mon.equal([h[0] for h in self.hooks], hooks, "hooks", "hooks of the register called by a backdoor access", what=what, found=found)
        mon.check(all(h[1] == rm.UVM_BACKDOOR for h in self.hooks), "hook-path", "the hooks see the backdoor as the path")
        mon.equal(self.sys.take(), [], "bus", "bus accesses made by a backdoor access")

    async def no_path(self, k, op):
        """no path of the kind: by the bus, with a warning"""
        mon, e, x, rm = self.mon, self.case["els"][k], self.els[k], self.rm
        if op[0] not in ("write", "read"):
            return
        mon.count("no_path")
        status, value = [], []
        if op[0] == "write":
            await x.write(status, op[1], rm.UVM_BACKDOOR)
        else:
            await x.read(status, value, rm.UVM_BACKDOOR)
        reps, _ = self.out.take()
        mon.check(any(r[0] == "UVM_WARNING" and x.get_full_name() in r[2] for r in reps), "no-path-warning", "a backdoor access without a backdoor is reported")
        kinds = {a[0] for a in self.sys.take()}
        mon.equal(kinds, {op[0]}, "no-path-bus", "kinds of the bus accesses of a backdoor access without a backdoor")
        mon.equal(status, [rm.UVM_IS_OK], "no-path-status", "status of a backdoor access without a backdoor")
        mon.equal(self.design.values, self.want, "design", "objects of the design after an access without a path")
        self.mirror[k] = [x.get_field_by_name(f"f{j}").get_mirrored_value() for j in range(len(self.mirror[k]))]

    async def mem(self, k, op, by_default):
        mon, e, x, rm = self.mon, self.case["els"][k], self.els[k], self.rm
        what, at, vals, kind = op
        blk = self.blks[e["block"]]
        default = self.model.default(e["block"])
        poke = what in ("poke", "peek")
        real = (kind or default) if poke else default
        if real not in e["kinds"]:
            if not poke:
                return                  # by the bus: C28
            status, value = [], []
            await (x.poke(status, at, vals[0], kind) if what == "poke" else x.peek(status, at, value, kind))
            self.judge(what, (status, [rm.UVM_NOT_OK]), 1, element=k, kind=kind)
            mon.count("mem_no_path")
            return
        if not self.model.element(k, real)[0] or self.model.element(k, real)[1]:
            mon.count("no_full_path")
            return
        old = blk.default_path
        how = rm.UVM_BACKDOOR
        if by_default:
            blk.default_path, how = rm.UVM_BACKDOOR, rm.UVM_DEFAULT_PATH
        status, value = [], []
        if what == "poke":
            await x.poke(status, at, vals[0], kind)
        elif what == "peek":
            await x.peek(status, at, value, kind)
        elif what == "write":
            await x.write(status, at, vals[0], how)
        elif what == "read":
            await x.read(status, at, value, how)
        elif what == "burst_write":
            await x.burst_write(status, at, list(vals), how)
        else:
            value = [0] * len(vals)
            await x.burst_read(status, at, value, how)
        blk.default_path = old
        if not what.startswith("burst"):
            vals = vals[:1]
        mon.count("mem_" + what)
        mon.count("burst", len(vals) > 1)
        errors = 0
        ok = True
        if what in ("poke", "write", "burst_write"):
            if what == "poke" or e["access"] == "RW":
                for i, v in enumerate(vals):
                    ok &= self.put_objects(k, real, v, at + i)
            else:
                mon.count("read_only")
        else:
            seen = []
            for i in range(len(vals)):
                found, n = self.read_objects(k, real, at + i)
                mon.count("mem_objects", n)
                mon.nontrivial = mon.nontrivial or n > 1
                if found in ("missing", "differ"):
                    mon.count("mem_" + found)
                    errors += found == "differ"
                    ok = False
                    break
                seen.append(found)
            if ok:
                mon.equal([int(v) for v in value], seen, "mem-value", "values read from a memory by the backdoor", what=what, element=k)
        mon.count("mem_missing", not ok and not errors)
        self.judge(what, (status, [rm.UVM_IS_OK if ok else rm.UVM_NOT_OK]), errors, element=k, kind=real)
        mon.equal(self.sys.take(), [], "bus", "bus accesses made by a backdoor access")
