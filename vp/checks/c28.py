"""C28: memory accesses, single and burst, by the bus and by the backdoor, alone and at the same time.

One log per case records the hooks, the callbacks and the accesses of every operation, each tagged with its operation; the
log, the results and every word of the memories are compared with what the maps prescribe."""
import itertools

from cocotb.triggers import Timer

SIM = True
BATCH = 10
CASES = {"quick": 1200, "thorough": 16000}
TECHNIQUE = "runtime monitoring: tagged log of hooks, callbacks and bus accesses of memory operations and every memory word, against the map's prescription"
LEVEL_NOTE = "Random memories, maps, operations and schedules on the real memory, map, adapter and sequencer classes; exploration, no claim beyond what ran."
RULE = ("1-3 nested maps of 1-8 bytes and one beside them, 1-3 memories of 1-40 words of 1-64 bits, 1-3 tasks of 3-10 operations; non-trivial: at least two operations "
        "reached a memory; distinct: hash of the traffic")
REQUIRE = {"write": 800, "read": 800, "burst_write": 800, "burst_read": 800, "poke": 400, "peek": 400, "bus_accesses": 3500, "front_burst": 250, "multi_word": 400,
           "abstract": 400, "backdoor": 500, "backdoor_burst": 110, "backdoor_read_only": 55, "no_backdoor": 150, "frontdoor": 110, "errors": 40, "hooked": 2000,
           "overlapping": 1500, "post_failed": 70, "refused_backdoor": 180, "refused_burst": 45, "refused_map": 140, "refused_narrow": 180, "refused_offset": 100,
           "refused_unmapped": 55, "responses": 400, "samples": 3000, "shared": 200, "parents": 150}
ASSUMPTIONS = []
_ids = itertools.count()


def gen(rng, tier):
    maps = []
    nb = rng.choice([1, 1, 2, 3])
    up = None
    for b in range(nb):
        w = rng.choice([1, 2, 4, 4, 8]) if b == 0 else rng.choice([x for x in (1, 2, 4, 8) if x <= maps[up]["bus"]])
        maps.append({"block": b, "base": rng.choice([0, 0, 0x1000]) if b == 0 else 0, "up": None if b == 0 else up, "off": 0x10000 * b if b else 0,
                     "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": w})
        up = rng.randrange(b + 1)
    maps.append({"block": 0, "base": 0x1000000, "up": None, "off": 0, "endian": rng.choice(["UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN"]), "bus": rng.choice([1, 2, 4, 8])})
    mems = []
    for k in range(rng.randint(1, 3)):
        bits = rng.choice([1, 7, 8, 8, 16, 16, 20, 32, 32, 40, 64])
        where = "mapped" if rng.random() < .85 else rng.choice(["unmapped", "nowhere", "frontdoor", "frontdoor", "unmapped_frontdoor"])
        block = rng.randrange(nb)
        size = rng.choice([1, 2, 3, 8, 17, 40])
        mems.append({"bits": bits, "size": size, "block": block, "where": where, "access": "RW" if rng.random() < .8 else "RO",
                     "rights": rng.choice(["RW", "RW", "RW", "RO", "WO"]), "alt": rng.choice(["RW", "RO", "WO"]) if block == 0 and rng.random() < .4 and where == "mapped" else None,
                     "hook": rng.random() < .4, "cbs": rng.choice([0, 0, 1, 2]), "xor": rng.getrandbits(bits) if rng.random() < .3 else 0,
                     "backdoor": rng.choice(["none", "own", "own", "func"]), "fail": sorted(i for i in range(size) if rng.random() < .1) if rng.random() < .2 else [],
                     "init": [rng.getrandbits(bits) for _ in range(size)]})
    tasks = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        ops = []
        hot = rng.randrange(len(mems))
        for _ in range(rng.randint(3, 10 if tier == "quick" else 14)):
            k = hot if rng.random() < .6 else rng.randrange(len(mems))
            m = mems[k]
            if rng.random() < .1:
                ops.append({"op": "delay", "n": rng.choice([1, 2, 5])})
                continue
            op = rng.choice(["write", "write", "read", "read", "burst_write", "burst_write", "burst_read", "burst_read", "poke", "peek"])
            off = rng.randrange(m["size"])
            n = rng.randint(1, min(m["size"] - off, 9)) if "burst" in op else 1
            if rng.random() < .08 and op not in ("poke", "peek"):
                r = rng.random()
                if r < .3:
                    off = m["size"] + rng.choice([0, 0, 1, 100])
                elif r < .4:
                    off = -rng.choice([1, 2, m["size"]])
                elif "burst" in op and m["where"] == "mapped":
                    n = m["size"] - off + rng.choice([1, 1, 2, 5])
            path = rng.choice(["UVM_FRONTDOOR"] * 4 + ["UVM_BACKDOOR", "UVM_DEFAULT_PATH"])
            if n > 1 and (off < 0 or off + n > m["size"]):
                path = "UVM_FRONTDOOR"          # a burst beyond the end is only refused on the bus
            ops.append({"op": op, "mem": k, "off": off, "n": n, "values": [rng.getrandbits(m["bits"]) for _ in range(n)], "path": path,
                        "map": rng.choice(["none", "own", "root", "root"] + (["alt"] * 3 if m["alt"] else [])), "abort": rng.random() < .05,
                        "post_fail": rng.random() < .04, "parent": rng.random() < .12, "foreign": rng.random() < .03})
        tasks.append(ops)
    if any("frontdoor" in m["where"] for m in mems):
        tasks = tasks[:1]                       # a user-defined frontdoor serves one access at a time
    return {"byte": True, "maps": maps, "blocks": [{"parent": -1 if b == 0 else maps[b]["up"]} for b in range(nb)], "mems": mems, "tasks": tasks,
            "mode": rng.choice(["plain", "plain", "plain", "responses", "abstract"]), "delays": [rng.choice([0, 0, 1, 3]) for _ in range(3)],
            "default": rng.choice(["UVM_DEFAULT_PATH", "UVM_FRONTDOOR", "UVM_BACKDOOR"])}


def access(m, in_alt):
    """the access mode of a memory through one of its maps"""
    if m["alt"] is None or in_alt is None:
        return m["access"]
    rights = m["alt"] if in_alt else m["rights"]
    return "RO" if m["access"] == "RO" or rights == "RO" else rights


async def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.base.uvm_callback import UVMCallbacks
    from uvm.base.uvm_object import UVMObject
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg_backdoor import UVMRegBackdoor
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_cbs import UVMRegCbs
    from uvm.reg.uvm_reg_sequence import UVMRegFrontdoor
    from uvm.seq.uvm_sequence import UVMSequence
    from vp.checks.c26 import Model
    from vp.monitor import Output
    from vp.regmodel import HwReg, System
    from vp.tasks import spawn
    log = []
    WRITES = (rm.UVM_WRITE, rm.UVM_BURST_WRITE)

    class Tag(UVMObject):
        def __init__(self, op):
            super().__init__("tag")
            self.op, self.abort, self.post_fail = op, False, False

    def note(rw, what, *more):
        log.append((rw.extension.op, what, *more))

    class Hooks:
        """the four hooks of a memory"""

        async def pre_write(self, rw):
            note(rw, "pre_write", self.who, list(rw.value))
            self.slow and await Timer(self.slow, "NS")
            rw.value = [v ^ self.xor for v in rw.value]
            if rw.extension.abort:
                rw.status = rm.UVM_NOT_OK

        async def post_write(self, rw):
            note(rw, "post_write", self.who, list(rw.value))
            if rw.extension.post_fail:
                rw.status = rm.UVM_NOT_OK

        async def pre_read(self, rw):
            note(rw, "pre_read", self.who)
            self.slow and await Timer(self.slow, "NS")
            if rw.extension.abort:
                rw.status = rm.UVM_NOT_OK

        async def post_read(self, rw):
            note(rw, "post_read", self.who, list(rw.value))
            rw.value = [v ^ self.xor for v in rw.value]
            if rw.extension.post_fail:
                rw.status = rm.UVM_NOT_OK

    class Cb(UVMRegCbs):
        def __init__(self, who, xor, sync):
            super().__init__(who)
            self.who, self.xor, self.slow, self.sync = who, xor, 0, sync

        async def pre_write(self, rw):
            await Hooks.pre_write(self, rw)

        async def post_write(self, rw):
            await Hooks.post_write(self, rw)

        async def pre_read(self, rw):
            await Hooks.pre_read(self, rw)

        def post_read(self, rw):
            r = Hooks.post_read(self, rw)
            if not self.sync:
                return r
            try:
                r.send(None)
            except StopIteration:
                return None

    class Mem(UVMMem):
        def sample(self, offset, is_read, _map):
            samples.append((self, offset, bool(is_read), _map))

    class HookedMem(Hooks, Mem):
        pass

    class Block(UVMRegBlock):
        def sample(self, offset, is_read, _map):
            bsamples.append((self, offset, bool(is_read), _map))

    def front(rw, k, what):
        if rw.kind in WRITES:
            note(rw, what, "write", rw.offset, list(rw.value))
            for i, v in enumerate(rw.value):
                hws[k][rw.offset + i].access(True, (1 << 64) - 1, v)
        else:
            rw.value = [hws[k][rw.offset + i].value for i in range(len(rw.value))]
            note(rw, what, "read", rw.offset, list(rw.value))
        rw.status = rm.UVM_IS_OK

    class Frontdoor(UVMRegFrontdoor):
        async def body(self):
            await Timer(2, "NS")
            front(self.rw_info, self.k, "fd")

    def back(rw, k):
        if rw.kind in WRITES:
            note(rw, "back", "write", rw.offset, list(rw.value))
            for i, v in enumerate(rw.value):
                hws[k][rw.offset + i].value = v
        else:
            rw.value = [hws[k][rw.offset + i].value for i in range(len(rw.value))]
            note(rw, "back", "read", rw.offset, list(rw.value))
        rw.status = rm.UVM_IS_OK

    class Backdoor(UVMRegBackdoor):
        async def write(self, rw):
            self.k % 2 and await Timer(1, "NS")
            back(rw, self.k)

        async def read(self, rw):
            self.k % 2 and await Timer(1, "NS")
            back(rw, self.k)

    class FuncBackdoor(UVMRegBackdoor):
        async def write(self, rw):
            await self.do_pre_write(rw)
            back(rw, self.k)
            await self.do_post_write(rw)

        def read_func(self, rw):
            back(rw, self.k)

    class Parent(UVMSequence):
        def mid_do(self, item):
            self.calls.append("mid" if isinstance(item, sys.BusItem) else "MID")

        def post_do(self, item):
            self.calls.append("post" if isinstance(item, sys.BusItem) else "POST")

    samples, bsamples = [], []
    tag = next(_ids)
    with Output() as out:
        sys = System(mon, tag, case["delays"], case["mode"] == "responses")
        out.take()
        bmodel = Model(case)
        blks, maps = [], []
        for b, spec in enumerate(case["blocks"]):
            blk = Block(f"blk{tag}_{b}")
            blk.configure(blks[spec["parent"]] if b else None)
            m = case["maps"][b]
            mp = blk.create_map(f"map{b}", m["base"], m["bus"], getattr(rm, m["endian"]), True)
            blk.set_default_map(mp)
            if b:
                maps[m["up"]].add_submap(mp, m["off"])
            blks.append(blk)
            maps.append(mp)
        ALT = len(maps)
        m = case["maps"][ALT]
        maps.append(blks[0].create_map("alt", m["base"], m["bus"], getattr(rm, m["endian"]), True))
        blks[0].default_path = getattr(rm, case["default"])
        other = Block(f"other{tag}")
        other.configure()
        foreign = other.create_map("foreign", 0, 4, rm.UVM_LITTLE_ENDIAN, True)
        mems, hws, words, offs = [], [], [], []
        for k, spec in enumerate(case["mems"]):
            x = (HookedMem if spec["hook"] else Mem)(f"m{k}", spec["size"], spec["bits"], spec["access"])
            x.configure(blks[spec["block"]])
            x.who, x.xor, x.slow = f"mem{k}", spec["xor"] if spec["hook"] else 0, k % 3
            for c in range(spec["cbs"]):
                UVMCallbacks.add(x, Cb(f"mem{k}.cb{c}", spec["xor"] if c == 0 and not spec["hook"] else 0, k % 2))
            at = 0x1000 * k
            fd = None
            if "frontdoor" in spec["where"]:
                fd = Frontdoor(f"fd{k}")
                fd.k = k
            if spec["where"] != "nowhere":
                maps[spec["block"]].add_mem(x, at, spec["rights"], "unmapped" in spec["where"], fd)
            if spec["alt"]:
                maps[ALT].add_mem(x, at, spec["alt"])
            if spec["backdoor"] != "none":
                bd = (Backdoor if spec["backdoor"] == "own" else FuncBackdoor)(f"bd{k}")
                bd.k = k
                x.set_backdoor(bd)
            hw = [HwReg([(0, spec["bits"], spec["access"])], v) for v in spec["init"]]
            ws = {}
            if spec["where"] == "mapped":
                for mi in [spec["block"]] + [ALT] * bool(spec["alt"]):
                    w, nbytes = bmodel.width(mi), (spec["bits"] + 7) // 8
                    bus = case["maps"][mi]["bus"]
                    step = -(-nbytes // bus) * bus
                    for o in range(spec["size"]):
                        ws[mi, o] = []
                        for i, a in enumerate(bmodel.addrs(mi, at + step * o, nbytes)):
                            assert a not in sys.decode
                            sys.decode[a] = (hw[o], w * 8 * i, w)
                            ws[mi, o].append((a, w, i))
                            if o in spec["fail"]:
                                sys.fail.add(a)
            mems.append(x)
            hws.append(hw)
            words.append(ws)
            offs.append(at)
        for blk in [blks[0], other]:
            blk.lock_model()
        reps, _ = out.take()
        mon.check(not [x for x in reps if x[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: f"building the model reported {[x for x in reps if x[0] != 'UVM_INFO'][:4]}")
        for mi in (0, ALT):
            maps[mi].set_sequencer(sys.sqr, None if case["mode"] == "abstract" else sys.adapter)
        for k, (x, spec) in enumerate(zip(mems, case["mems"])):
            if spec["where"] != "nowhere":
                mon.equal(x.get_access(maps[spec["block"]]), access(spec, False), "access", "access mode of a memory in its map", mem=spec)
            if spec["alt"]:
                mon.count("shared")
                mon.equal(x.get_access(maps[ALT]), access(spec, True), "access", "access mode of a memory in its second map", mem=spec)
            mon.equal((x.get_size(), x.get_n_bits(), x.get_n_bytes()), (spec["size"], spec["bits"], (spec["bits"] + 7) // 8), "shape", "size and width of a memory")
        out.take()
        sys.serve_item = lambda it: front(it, mems.index(it.element), "item")
        real_serve = sys.serve

        def serve(f):
            r = real_serve(f)
            e = sys.log[-1]
            log.append((f["ext"].op, "bus", *e[:6]))
            return r
        sys.serve = serve
        ops, done = [], []
        flying = [0]

        async def one(o):
            n = len(ops)
            k = o["mem"]
            mem, spec = mems[k], case["mems"][k]
            t = Tag(n)
            t.abort, t.post_fail = o["abort"], o["post_fail"]
            rec = dict(o, id=n)
            ops.append(rec)
            mp = {"none": None, "root": maps[0], "own": maps[spec["block"]], "alt": maps[ALT]}[o["map"]]
            if o["foreign"]:
                mp = foreign
            st, val, par = [], list(o["values"]), None
            if o["parent"]:
                par = Parent("parent")
                par.calls = []
            path = getattr(rm, o["path"])
            mon.count("overlapping", flying[0] > 0)
            flying[0] += 1
            if o["op"] == "write":
                await mem.write(st, o["off"], o["values"][0], path, mp, par, -1, t)
            elif o["op"] == "read":
                val = []
                await mem.read(st, o["off"], val, path, mp, par, -1, t)
            elif o["op"] == "burst_write":
                await mem.burst_write(st, o["off"], val, path, mp, par, -1, t)
            elif o["op"] == "burst_read":
                val = [0] * o["n"]
                await mem.burst_read(st, o["off"], val, path, mp, par, -1, t)
            elif o["op"] == "poke":
                await mem.poke(st, o["off"], o["values"][0], "", par, t)
            else:
                val = []
                await mem.peek(st, o["off"], val, "", par, t)
            flying[0] -= 1
            rec.update(status=st, got=val, calls=par.calls if par else None)
            done.append(n)
            mon.count(o["op"])

        async def task(lst):
            for o in lst:
                if o["op"] == "delay":
                    await Timer(o["n"], "NS")
                else:
                    await one(o)
        running = [spawn(mon, task(lst)) for lst in case["tasks"]]
        for t in running:
            await t.join()
        reps, _ = out.take()
        sys.take()
        mon.equal(len(done), sum(o["op"] != "delay" for lst in case["tasks"] for o in lst), "finished", "operations that returned")
        # ---- what each operation did: replay the accesses in the order they happened, each as its operation prescribes
        shadow = [list(s["init"]) for s in case["mems"]]
        plan = {}
        refusals = warned = 0
        exp_samples, exp_bsamples = {}, {}
        for o in ops:
            p = expect(o, case, bmodel, words, sys.fail, ALT, rm, mon)
            plan[o["id"]] = p
            refusals += p["refused"]
            warned += p["warned"]
        at = dict.fromkeys(plan, 0)
        results = {n: [] for n in plan}
        reached = set()
        for e in log:
            mon.event(e[1], e)
            n = e[0]
            o, p = ops[n], plan[n]
            k = o["mem"]
            step = p["steps"][at[n]] if at[n] < len(p["steps"]) else None
            at[n] += 1
            if step is None or step[0] != e[1]:
                mon.check(False, "trace", f"operation {o}: saw {[x for x in log if x[0] == n]}, expected {p['steps']}", reports=[r for r in reps if r[0] != "UVM_INFO"][:3], mem=case["mems"][k], maps=case["maps"])
                return
            rights = case["mems"][k]["access"]
            if e[1] == "bus":
                _, kind, a, data, be, nbits, ok, word, i, w, v = step
                reached.add(n)
                wm = (1 << 8 * w) - 1
                if kind == "write":
                    want = v >> (8 * w * i) & wm
                    if ok and rights == "RW":
                        m = wm << (8 * w * i) & (1 << case["mems"][k]["bits"]) - 1
                        shadow[k][word] = shadow[k][word] & ~m | v & m
                else:
                    want = shadow[k][word] >> (8 * w * i) & wm if ok else 0xDEADBEEF
                    if i == 0 or not results[n] or results[n][-1][0] != word:
                        results[n].append([word, 0])
                    results[n][-1][1] |= want << (8 * w * i) if ok else 0
                step = ("bus", kind, a, want, be, nbits, ok)
            elif e[1] in ("fd", "item", "back"):
                reached.add(n)
                kind, off, vals = step[1:]
                cells = range(off, off + o["n"])
                if kind == "write":
                    for c, v in zip(cells, vals):
                        if e[1] == "back" or rights == "RW":
                            shadow[k][c] = v
                else:
                    vals = [shadow[k][c] for c in cells]
                    results[n] = [[c, shadow[k][c]] for c in cells]
                step = (e[1], kind, off, vals)
            elif e[1] == "post_read":
                step = ("post_read", step[1], [v ^ step[2] for _, v in results[n]] if p["ok"] else None)
            if step[-1] is None:
                step = step[:-1]
                e = e[:-1]
            mon.equal(tuple(e[1:]), tuple(step), "trace", f"a step of a {o['op']}", op=o, mem={x: y for x, y in case["mems"][k].items() if x != "init"}, maps=case["maps"])
        for n, p in plan.items():
            o = ops[n]
            if at[n] != len(p["steps"]):
                mon.check(False, "trace", f"operation {o}: saw {[x for x in log if x[0] == n]}, expected {p['steps']}", reports=[r for r in reps if r[0] != "UVM_INFO"][:3], mem=case["mems"][o["mem"]], maps=case["maps"])
                return
            mon.equal(o["status"], [p["status"]], "status", f"status of a {o['op']}", op=o, where=case["mems"][o["mem"]]["where"])
            if "read" in o["op"] or o["op"] == "peek":
                if p["ok"] and n in reached:
                    mon.equal(o["got"], [v ^ p["xor"] for _, v in results[n]], "read_value", f"values of a {o['op']}", op=o)
            elif o["op"] == "burst_write":
                mon.equal(o["got"], o["values"], "burst_list", "the caller's list of values after a burst write")
            if o["calls"] is not None and p["bus"] and p["ok"]:
                mon.count("parents")
                mon.equal((o["calls"].count("MID"), o["calls"].count("POST"), o["calls"].count("mid"), o["calls"].count("post")),
                          (o["n"], o["n"], p["bus"], p["bus"]), "parent", "calls of mid_do and post_do of the parent sequence", op=o)
            mon.count("responses", case["mode"] == "responses" and p["bus"] > 0)
        for k, hw in enumerate(hws):
            mon.equal([h.value for h in hw], shadow[k], "contents", f"words of memory {k}")
        errs = [x for x in reps if x[0] == "UVM_ERROR"]
        mon.equal(len(errs), refusals, "reports", "errors reported: one for each access refused", errors=errs[:3])
        # ---- coverage: one sample for each word
        want, bwant = [], []
        for n in done:
            p, o = plan[n], ops[n]
            if p["sampled"]:
                want += [(o["mem"], p["stride"] * (o["off"] + i), "read" in o["op"]) for i in range(o["n"])]
                bwant += [(case["mems"][o["mem"]]["block"], offs[o["mem"]] + p["stride"] * (o["off"] + i), "read" in o["op"]) for i in range(o["n"])]
        mon.count("samples", len(want))
        mon.equal(sorted((mems.index(x), a, rd) for x, a, rd, _ in samples), sorted(want), "samples", "words sampled for coverage")
        mon.equal(sorted((blks.index(x), a, rd) for x, a, rd, _ in bsamples), sorted(bwant), "block_samples", "words sampled for the coverage of the block")
        sys.task.kill()
    mon.distinct = hash(tuple(str(e) for e in log))
    if len(reached) > 1:
        mon.nontrivial = True


def expect(o, case, bmodel, words, fail, ALT, rm, mon):
    """the steps of one operation, as (what, ...), and how it ends"""
    k = o["mem"]
    spec = case["mems"][k]
    write = "write" in o["op"] or o["op"] == "poke"
    p = {"steps": [], "status": rm.UVM_IS_OK, "refused": 0, "warned": 0, "ok": True, "bus": 0, "sampled": False, "stride": 0, "xor": 0}
    kind = "write" if write else "read"

    def refuse(why):
        mon.count("refused")
        mon.count("refused_" + why)
        p["refused"] = 1
        p["status"] = rm.UVM_NOT_OK
        p["ok"] = False
        return p
    if o["op"] in ("poke", "peek"):
        if spec["backdoor"] == "none":
            return refuse("backdoor")
        p["steps"].append(("back", kind, o["off"], list(o["values"]) if write else None))
        return p
    if not 0 <= o["off"] < spec["size"]:
        return refuse("offset")
    path = o["path"]
    if path == "UVM_DEFAULT_PATH":
        path = case["default"] if case["default"] != "UVM_DEFAULT_PATH" else "UVM_FRONTDOOR"
    if path == "UVM_BACKDOOR" and spec["backdoor"] == "none":
        path = "UVM_FRONTDOOR"
        mon.count("no_backdoor")
    if path == "UVM_FRONTDOOR":
        if o["foreign"] or spec["where"] == "nowhere":
            return refuse("map")
        if spec["where"] == "unmapped":
            return refuse("unmapped")
        mi = ALT if o["map"] == "alt" else spec["block"]
        if spec["where"] == "mapped" and o["n"] > 1:
            if spec["bits"] > 8 * bmodel.width(mi):
                return refuse("narrow")
            if o["off"] + o["n"] > spec["size"]:
                return refuse("burst")
    who = ([(f"mem{k}", spec["xor"])] if spec["hook"] else []) + [(f"mem{k}.cb{c}", spec["xor"] if c == 0 and not spec["hook"] else 0) for c in range(spec["cbs"])]
    vals = list(o["values"])
    for name, x in who:
        p["steps"].append(("pre_write", name, list(vals)) if write else ("pre_read", name))
        vals = [v ^ x for v in vals]
    mon.count("hooked", bool(who))
    if o["abort"] and who:
        mon.count("aborted")
        p["status"], p["ok"] = rm.UVM_NOT_OK, False
        return p
    if path == "UVM_BACKDOOR":
        mon.count("backdoor")
        mon.count("backdoor_burst", o["n"] > 1)
        if not write or spec["access"] == "RW":
            p["steps"].append(("back", kind, o["off"], list(vals) if write else None))
        else:
            mon.count("backdoor_read_only")
    elif spec["where"] != "mapped":
        mon.count("frontdoor")
        p["steps"].append(("fd", kind, o["off"], list(vals) if write else None))
        p["sampled"] = True
    elif case["mode"] == "abstract":
        mon.count("abstract")
        p["steps"].append(("item", kind, o["off"], list(vals) if write else None))
        p["sampled"] = True
    else:
        mon.count("front")
        mon.count("front_burst", o["n"] > 1)
        for j, v in enumerate(vals):
            acc = words[k][mi, o["off"] + j]
            mon.count("multi_word", len(acc) > 1)
            for a, w, i in acc:
                ok = a not in fail
                p["steps"].append(("bus", kind, a, None, (1 << w) - 1, min(8 * w, spec["bits"] - 8 * w * i), ok, o["off"] + j, i, w, v))
                p["bus"] += 1
                if not ok:
                    break
            if not ok:
                p["status"], p["ok"] = rm.UVM_NOT_OK, False
                mon.count("errors")
                break
        p["sampled"] = p["ok"]
    if p["sampled"]:
        bus = case["maps"][mi]["bus"]
        at = 0x1000 * k
        nbytes = (spec["bits"] + 7) // 8
        step = -(-nbytes // bus) * bus
        p["stride"] = 0 if "unmapped" in spec["where"] else bmodel.addrs(mi, at + step, nbytes)[0] - bmodel.addrs(mi, at, nbytes)[0]
    acc = 0
    for name, x in [w for w in who if ".cb" in w[0]] + [w for w in who if ".cb" not in w[0]] if False else who:
        p["steps"].append(("post_write", name, list(vals)) if write else ("post_read", name, acc))
        acc ^= x
    p["xor"] = acc
    if not write and path == "UVM_FRONTDOOR" and not p["ok"]:
        p["xor"] = 0
    if o["post_fail"] and who:
        mon.count("post_failed")
        p["status"] = rm.UVM_NOT_OK
    return p
