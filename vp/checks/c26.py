"""C26: the addresses of registers and memories, against a model of the nested maps.

Each case builds blocks, registers, memories and maps nested through submaps, locks the model, then moves registers and
submaps; after each step every address, lookup and map query is compared with a model of the maps, and the
conflict warnings with the conflicts there are."""
import itertools

SIM = False
BATCH = 25
CASES = {"quick": 2000, "thorough": 60000}
TECHNIQUE = "runtime monitoring: addresses, lookups and map queries of random register models compared with an independent address model"
LEVEL_NOTE = "Random models and moves on the real register, memory, map and block classes; exploration, no claim beyond what ran."
RULE = ("1-5 blocks with 1-2 maps each, nested up to 4 deep, 0-5 registers of 1-128 bits and 0-2 memories per block, up to 4 moves; non-trivial: "
        "at least three mapped elements; distinct: hash of all addresses")
REQUIRE = {"registers": 12000, "multi_access": 6000, "nested": 10000, "deep": 3000, "nested_multi": 2000, "memories": 3000, "narrowed": 800, "lookups": 20000,
           "misses": 50000, "moves": 800, "conflicts": 300, "shared": 400, "unmapped": 800, "two_maps": 1500, "rejected": 500}
ASSUMPTIONS = []
_ids = itertools.count()
LITTLE, BIG, LFIFO, BFIFO = "UVM_LITTLE_ENDIAN", "UVM_BIG_ENDIAN", "UVM_LITTLE_FIFO", "UVM_BIG_FIFO"


def gen(rng, tier):
    byte = rng.random() < .6
    mixed = rng.random() < .5
    crowd = rng.random() < .25       # conflicts are wanted
    width0 = rng.choice([1, 2, 4, 4, 8])
    maps, blocks, regs, mems = [], [], [], []
    space = {}                       # map -> next free unit
    for b in range(rng.randint(1, 5)):
        p = -1 if b == 0 else rng.randrange(b) if rng.random() < .5 else b - 1
        blocks.append({"parent": p})
        for _ in range(1 if rng.random() < .7 else 2):
            m = {"block": b, "base": rng.choice([0, 0, 0x10, 0x1000, 0x8000_0000]), "up": None, "off": 0, "endian": rng.choice([LITTLE, LITTLE, BIG, BIG, LFIFO, BFIFO])}
            ups = [k for k in range(len(maps)) if maps[k]["block"] == p]
            if b and (ups and rng.random() < .93):
                m["up"] = rng.choice(ups)
                w = maps[m["up"]]["bus"]
                m["bus"] = rng.choice([x for x in (1, 2, 4, 8) if x <= w or not byte]) if mixed else w
                m["off"] = rng.choice([0, 8, 0x100, 0x40 * len(maps), rng.randrange(0x2000)])
            else:
                m["bus"] = rng.choice([1, 2, 4, 8]) if mixed else width0
            maps.append(m)
    for b in range(len(blocks)):
        mine = [k for k in range(len(maps)) if maps[k]["block"] == b]
        for kind in ["reg"] * rng.randint(0, 5) + ["mem"] * rng.choice([0, 0, 1, 2]):
            bits = rng.choice([1, 8, 8, 16, 20, 24, 32, 32, 33, 64, 64]) if kind == "reg" or rng.random() < .7 else rng.randint(1, 64)
            e = {"kind": kind, "block": b, "bits": bits, "in": []}
            if kind == "reg":
                e["acc"] = [rng.choice(["RW", "RW", "RO", "WO", "W1C"]) for _ in range(rng.randint(1, min(3, bits)))]
            else:
                e["size"] = rng.choice([1, 2, 3, 16, 64, 256])
            for m in rng.sample(mine, rng.choice([1, 1, len(mine)])):
                nacc = -(-((bits + 7) // 8) // maps[m]["bus"]) * (maps[m]["bus"] if byte else 1)
                total = nacc * e.get("size", 1)
                at = space.get(m, 0)
                if crowd and at and rng.random() < .4:
                    at = max(0, at - rng.choice([1, 2, 4, 8]))
                elif rng.random() < .3:
                    at += rng.choice([0x10, 0x20, 4])
                e["in"].append([m, at, rng.choice(["RW", "RW", "RW", "RO", "WO"]) if kind == "reg" else "RW", rng.random() < .06])
                space[m] = at + total
            (regs if kind == "reg" else mems).append(e)
    # a read-only and a write-only register at one address
    for e in list(regs):
        if rng.random() < .06 and len(e["in"]) == 1 and e["in"][0][2] == "RW" and not e["in"][0][3]:
            e["acc"] = ["RO"] if rng.random() < .5 else ["WO"]
            regs.append({"kind": "reg", "block": e["block"], "bits": e["bits"], "acc": ["WO"] if e["acc"] == ["RO"] else ["RO"],
                         "in": [list(e["in"][0])]})
    moves = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        r = rng.random()
        if regs and r < .7:
            k = rng.randrange(len(regs))
            m = rng.choice([x[0] for x in regs[k]["in"]])
            moves.append(["reg", k, m, space.get(m, 0) + rng.choice([0x10, 0x100, 0x33, 0x400]), rng.random() < .1])
        else:
            subs = [k for k in range(len(maps)) if maps[k]["up"] is not None]
            if subs:
                moves.append(["map", rng.choice(subs), rng.choice([0, 0x3000, 0x4000, rng.randrange(0x5000)])])
    return {"byte": byte, "blocks": blocks, "maps": maps, "regs": regs, "mems": mems, "moves": moves, "wrong": rng.randrange(6), "early": rng.random() < .5}


def setup():
    import uvm  # noqa
    import uvm.reg  # noqa
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    with Output():
        UVMCoreService.get().get_root()


class Model:
    def __init__(self, case):
        self.case, self.maps = case, [dict(m) for m in case["maps"]]

    def root(self, m):
        return m if self.maps[m]["up"] is None else self.root(self.maps[m]["up"])

    def depth(self, m):
        return 0 if self.maps[m]["up"] is None else 1 + self.depth(self.maps[m]["up"])

    def width(self, m):
        w, up = self.maps[m]["bus"], self.maps[m]["up"]
        return w if up is None else min(w, self.width(up))

    def endian(self, m):
        return self.maps[self.root(m)]["endian"]

    def base(self, m):
        mm = self.maps[m]
        return mm["base"] if mm["up"] is None else mm["off"] + self.base(mm["up"])

    def addrs(self, m, at, nbytes):
        """the bus addresses of nbytes at address at of map m, in the order of the data from its least significant part on"""
        mm = self.maps[m]
        unit = mm["bus"] if self.case["byte"] else 1
        n = max(1, -(-nbytes // mm["bus"]))
        order = range(n) if mm["endian"] == LITTLE else reversed(range(n)) if mm["endian"] == BIG else [0] * n
        local = [at + unit * i for i in order]
        if mm["up"] is None:
            return [mm["base"] + a for a in local]
        up = self.maps[mm["up"]]
        k = max(1, -(-mm["bus"] // up["bus"]))
        res = []
        for a in local:
            res += self.addrs(mm["up"], mm["off"] + a * k, mm["bus"])
        return res


def reg_access(accs, rights):
    """whether the register can be read and written through the map"""
    res = set()
    for a in accs:
        if rights == "RO":
            res.add("none" if a == "WO" else "RO")
        elif rights == "WO":
            res.add("WO" if a in ("RW", "WO") else "none")
        else:
            res.add(a)
    return "RO" if res == {"RO"} else "WO" if res == {"WO"} else "RW"


def run(case, mon):
    import uvm.reg.uvm_reg_model as rm
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    from vp.monitor import Output
    model = Model(case)
    M = model.maps
    with Output() as out:
        tag = next(_ids)
        blks, maps, regs, mems = [], [], [], []
        for b, spec in enumerate(case["blocks"]):
            blk = UVMRegBlock(f"b{b}_{tag}")
            blk.configure(None if spec["parent"] < 0 else blks[spec["parent"]])
            blks.append(blk)
        for k, m in enumerate(M):
            maps.append(blks[m["block"]].create_map(f"m{k}", m["base"], m["bus"], getattr(rm, m["endian"]), case["byte"]))

        def subs():
            for k, m in enumerate(M):
                if m["up"] is not None:
                    maps[m["up"]].add_submap(maps[k], m["off"])
        if case["early"]:
            subs()
        for k, e in enumerate(case["regs"]):
            r = UVMReg(f"r{k}", e["bits"])
            r.configure(blks[e["block"]])
            left, lsb = e["bits"], 0
            for j, acc in enumerate(e["acc"]):
                w = left if j == len(e["acc"]) - 1 else 1
                f = UVMRegField(f"f{j}")
                f.configure(r, w, lsb, acc, False, 0, True, True, False)
                lsb, left = lsb + w, left - w
            for m, at, rights, unmapped in e["in"]:
                maps[m].add_reg(r, at, rights, unmapped)
            regs.append(r)
        for k, e in enumerate(case["mems"]):
            x = UVMMem(f"x{k}", e["size"], e["bits"])
            x.configure(blks[e["block"]])
            for m, at, rights, unmapped in e["in"]:
                maps[m].add_mem(x, at, rights, unmapped)
            mems.append(x)
        if not case["early"]:
            subs()
        reps, text = out.take()
        bad = [r for r in reps if r[0] in ("UVM_ERROR", "UVM_FATAL")]
        mon.check(not bad, "build", lambda: f"building the model reported {bad[:1]}")
        narrow = sum(m["up"] is not None and M[m["up"]]["bus"] > m["bus"] for m in M)
        warns = [r for r in reps if r[0] == "UVM_WARNING"]
        mon.equal(len(warns), narrow, "width_warning", "warnings about submaps narrower than their parent")
        wrong(case, mon, out, blks, maps, regs, mems, M, model)
        blks[0].lock_model()
        for b, spec in enumerate(case["blocks"]):
            mon.equal(bool(blks[b].is_locked()), True, "locked", "locking the top block locks its subblocks")
        reps, text = out.take()
        tainted = set()
        places = {("reg", k): {x[0]: x[1:] for x in e["in"]} for k, e in enumerate(case["regs"])}
        places.update({("mem", k): {x[0]: x[1:] for x in e["in"]} for k, e in enumerate(case["mems"])})
        live = {k for k in range(len(M)) if M[model.root(k)]["block"] == 0}     # initialised with the top block
        look(case, mon, model, live, places, blks, maps, regs, mems, reps, out, tainted)
        queries(case, mon, model, live, blks, maps, regs, mems, out)
        for mv in case["moves"]:
            if mv[0] == "reg" and mv[2] in live:
                _, k, m, at, unmap = mv
                regs[k].set_offset(maps[m], at, unmap)
                places[("reg", k)][m] = [at, places[("reg", k)][m][1], unmap]
            elif mv[0] == "map" and mv[1] in live:
                M[mv[1]]["off"] = mv[2]
                maps[M[mv[1]]["up"]].set_submap_offset(maps[mv[1]], mv[2])
                mon.equal(maps[M[mv[1]]["up"]].get_submap_offset(maps[mv[1]]), mv[2], "submap_offset", "offset of a moved submap")
            else:
                continue
            mon.count("moves")
            reps, text = out.take()
            look(case, mon, model, live, places, blks, maps, regs, mems, reps, out, tainted, moved=mv)
        mon.nontrivial = sum(len(p) for p in places.values()) >= 3


def wrong(case, mon, out, blks, maps, regs, mems, M, model):
    """mappings that are refused: reported and without effect"""
    which = case["wrong"]
    if which == 0 and regs:
        m = case["regs"][0]["in"][0][0]
        maps[m].add_reg(regs[0], 0x7777)
    elif which == 1 and regs and len(blks) > 1:
        b = case["regs"][0]["block"]
        other = [k for k in range(len(maps)) if M[k]["block"] != b][0]
        maps[other].add_reg(regs[0], 0x7777)
    elif which == 2 and mems:
        maps[case["mems"][0]["in"][0][0]].add_mem(mems[0], 0x7777)
    elif which == 3:
        subs = [k for k in range(len(maps)) if M[k]["up"] is not None]
        if not subs:
            return
        maps[model.root(subs[0])].add_submap(maps[subs[0]], 0x7777)
    elif which == 4:
        subs = [k for k in range(len(maps)) if M[k]["up"] is None and M[k]["block"] != 0 and k]
        if not subs:
            return
        maps[subs[0]].add_submap(maps[0], 0x7777)      # the map of an outer block
    elif which == 5:
        maps[0].add_submap(None, 0x7777)
    else:
        return
    reps, _ = out.take()
    mon.count("rejected")
    mon.check(sum(r[0] == "UVM_ERROR" for r in reps) == 1, "rejected", f"a refused mapping of kind {which} is reported with one error", reports=[r[2] for r in reps])


def look(case, mon, model, live, places, blks, maps, regs, mems, reps, out, tainted, moved=None):
    byaddr = {}                 # (root, address) -> [(element, access)]
    ranges = []                 # (root, min, max, element)
    alladdr = []
    for (kind, k), where in places.items():
        spec = (case["regs"] if kind == "reg" else case["mems"])[k]
        el = (regs if kind == "reg" else mems)[k]
        nbytes = (spec["bits"] + 7) // 8
        if len(where) > 1:
            mon.count("two_maps")
        for m, (at, rights, unmapped) in where.items():
            if m not in live:
                continue
            root = model.root(m)
            if unmapped:
                mon.count("unmapped")
                if kind == "reg":
                    got = []
                    el.get_addresses(maps[m], got)
                    mon.equal((got, el.get_offset(maps[m])), ([], -1), "unmapped", "addresses and offset of an unmapped register")
                    reps2, _ = out.take()
                    mon.equal([r[0] for r in reps2], ["UVM_WARNING"] * 2, "unmapped_warn", "reports when asked for the address of an unmapped register")
                continue
            want = model.addrs(m, at, nbytes)
            alladdr.append((kind, k, m, want))
            d = model.depth(m)
            mon.count("nested", d > 0)
            mon.count("deep", d > 1)
            mon.count("nested_multi", d > 1 and len(want) > 1)
            mon.count("multi_access", len(want) > 1)
            mon.count("narrowed", model.width(m) < model.maps[m]["bus"])
            if kind == "reg":
                mon.count("registers")
                for via in ([m, root] if sum(model.root(x) == root for x in where) == 1 else [m]):
                    got = []
                    w = el.get_addresses(maps[via], got)
                    mon.equal(got, want, "addresses", f"addresses of a register, {d} maps deep", maps=model.maps, reg=k)
                    mon.equal(w, model.width(m) if via == m else model.width(m), "access_width", "bytes per access of a register")
                    mon.equal(el.get_address(maps[via]), want[0], "address", "address of a register")
                mon.equal(el.get_offset(maps[m]), at, "offset", "offset of a register in its map")
                if len(where) == 1:
                    mon.equal(el.get_address(), want[0], "default_address", "address of a register in its only map")
                for a in want:
                    byaddr.setdefault((root, a), {})[("reg", k, m)] = reg_access(spec["acc"], rights)
            else:
                mon.count("memories")
                info = maps[m].get_mem_map_info(el)
                mon.equal(list(info.addr), want, "mem_addresses", "addresses of the first word of a memory", maps=model.maps, mem=k)
                unit = model.maps[m]["bus"] if case["byte"] else 1
                n = max(1, -(-nbytes // model.maps[m]["bus"]))
                last = model.addrs(m, at + (spec["size"] - 1) * n * unit, nbytes)
                mn, mx = min(want[0], want[-1]), max(last[0], last[-1])
                if not (unit and model.maps[m]["up"] is not None and len(set(want)) > 2):
                    mon.equal((info.mem_range.min, info.mem_range.max), (mn, mx), "mem_range", "address range of a memory", maps=model.maps, mem=k, at=at)
                if spec["size"] > 1:
                    mon.equal(info.mem_range.stride, (last[0] - want[0]) // (spec["size"] - 1), "mem_stride", "address step of a memory")
                ranges.append((root, mn, mx, ("mem", k)))
    mon.event("addresses", [(a[0], a[3]) for a in alladdr])
    # lookups
    odd = 0
    for (root, a), there in byaddr.items():
        if len(there) > 2 or len(there) == 2 and sorted(there.values()) != ["RO", "WO"]:
            tainted.add((root, a))       # reported: what is found there, also after moves, is open
        if len(there) == 2 and len({x[2] for x in there}) > 1 and any(len(places[x[:2]]) > 1 for x in there):
            tainted.add((root, a))       # two maps give one register different rights: open whether it can share
            odd += 1
        mon.count("lookups")
        rd, wr = maps[root].get_reg_by_offset(a, True), maps[root].get_reg_by_offset(a, False)
        els = {id(regs[k]): acc for (_, k, _), acc in there.items()}
        if (root, a) in tainted:
            mon.check({id(rd), id(wr)} <= set(els) or moved, "lookup_conflict", "the register at a conflicting address")
        elif len(there) == 1:
            mon.check(id(rd) in els and rd is wr, "lookup", lambda: f"the register at an address: {rd and rd.get_name()} and {wr and wr.get_name()}, expected {there}")
        else:
            mon.count("shared")
            mon.equal((els.get(id(rd)), els.get(id(wr))), ("RO", "WO"), "lookup_shared", "a read-only and a write-only register share an address")
    for root in {model.root(m) for m in live}:
        near = {a + d for (r, a) in byaddr if r == root for d in (-1, 1, 4, 0x1000)} | {0, 0x7777}
        for a in near:
            if (root, a) not in byaddr and (root, a) not in tainted:
                mon.count("misses")
                mon.equal(maps[root].get_reg_by_offset(a), None, "lookup_none", "an address without a register")
    out.take()
    if moved is not None:
        return
    # conflicts
    conflicts = 0
    for (root, a), there in byaddr.items():
        if len(there) > 2 or len(there) == 2 and sorted(there.values()) != ["RO", "WO"]:
            conflicts += 1
    for (root, a), there in byaddr.items():
        conflicts += sum(r[0] == root and r[1] <= a <= r[2] for r in ranges)
    for x, y in itertools.combinations(ranges, 2):
        conflicts += x[0] == y[0] and x[1] <= y[2] and y[1] <= x[2]
    warns = [r for r in reps if r[0] == "UVM_WARNING"]
    mon.count("conflicts", conflicts > 0)
    if conflicts or not odd:
        mon.equal(bool(warns), conflicts > 0, "conflict_reported", "whether a conflict of addresses is reported", warnings=[w[2] for w in warns][:3],
                  conflicts=conflicts)
    mon.check(not [r for r in reps if r[0] not in ("UVM_WARNING", "UVM_INFO")], "lock_quiet", "locking the model reports no errors", reports=[r[2] for r in reps][:3])


def queries(case, mon, model, live, blks, maps, regs, mems, out):
    import uvm.reg.uvm_reg_model as rm
    M = model.maps
    for k, m in enumerate(M):
        mp = maps[k]
        mon.equal((mp.get_parent(), mp.get_parent_map(), mp.get_root_map()),
                  (blks[m["block"]], None if m["up"] is None else maps[m["up"]], maps[model.root(k)]), "map_parents", "block, parent map and root map of a map")
        mon.equal((mp.get_base_addr(rm.UVM_NO_HIER), mp.get_base_addr()), (m["base"], model.base(k)), "map_base", "base address of a map, its own and the effective one")
        mon.equal((mp.get_endian(rm.UVM_NO_HIER), mp.get_endian()), (getattr(rm, m["endian"]), getattr(rm, model.endian(k))), "map_endian", "endianness of a map")
        mon.equal(mp.get_addr_unit_bytes(), 1 if case["byte"] else m["bus"], "unit", "address unit of a map")
        mon.equal(mp.get_n_bytes(rm.UVM_NO_HIER), m["bus"], "map_bytes", "width of a map")
        if k in live:
            mon.equal(mp.get_n_bytes(), model.width(k), "map_eff_bytes", "effective width of a map", map=k, maps=M)

        def below(k):
            res = []
            for j in range(len(M)):
                if M[j]["up"] == k:
                    res += [j] + below(j)
            return res

        def names(q):
            return sorted(x.get_full_name() for x in q)
        got, flat = [], []
        mp.get_submaps(got)
        mp.get_submaps(flat, rm.UVM_NO_HIER)
        mon.equal((names(got), names(flat)), (names(maps[j] for j in below(k)), names(maps[j] for j in range(len(M)) if M[j]["up"] == k)), "submaps", "submaps of a map")
        got, flat = [], []
        mp.get_registers(got)
        mp.get_registers(flat, rm.UVM_NO_HIER)
        want = [[regs[j].get_full_name() for j, e in enumerate(case["regs"]) for x in e["in"] if x[0] == mm] for mm in [k] + below(k)]
        mon.equal((names(got), names(flat)), (sorted(sum(want, [])), sorted(want[0])), "map_regs", "registers of a map")
        mon.equal(mp.get_full_name(), blks[m["block"]].get_full_name() + f".m{k}", "map_name", "full name of a map")
    for j, e in enumerate(case["regs"]):
        r, mine = regs[j], [x[0] for x in e["in"]]
        got = []
        r.get_maps(got)
        mon.equal(([x.get_full_name() for x in got], r.get_n_maps()), ([maps[m].get_full_name() for m in mine], len(mine)), "reg_maps", "maps of a register")
        for k in range(len(M)):
            up = [m for m in mine if k == m or _above(model, m, k)]
            mon.equal(bool(r.is_in_map(maps[k])), bool(up), "in_map", "is_in_map")
            if up:
                mon.check(r.get_local_map(maps[k]) in [maps[m] for m in up], "local_map", "the local map of a register")
        for m, at, rights, unm in e["in"]:
            if m in live:
                mon.equal(r.get_rights(maps[m]), rights, "rights", "rights of a register in a map")
        mon.equal(r.get_full_name(), blks[e["block"]].get_full_name() + f".r{j}", "reg_name", "full name of a register")
    for b, spec in enumerate(case["blocks"]):
        blk = blks[b]
        below = [j for j in range(len(blks)) if _under(case, j, b)]
        got, flat = [], []
        blk.get_registers(got)
        blk.get_registers(flat, rm.UVM_NO_HIER)
        mon.equal((_names(got), _names(flat)), (_names(regs[j] for j, e in enumerate(case["regs"]) if e["block"] in below),
                                                _names(regs[j] for j, e in enumerate(case["regs"]) if e["block"] == b)), "block_regs", "registers of a block")
        got = []
        blk.get_memories(got)
        mon.equal(_names(got), _names(mems[j] for j, e in enumerate(case["mems"]) if e["block"] in below), "block_mems", "memories of a block")
        got = []
        blk.get_blocks(got)
        mon.equal(_names(got), _names(blks[j] for j in below if j != b), "block_blocks", "blocks of a block")
        got = []
        blk.get_maps(got)
        mine = [k for k in range(len(M)) if M[k]["block"] == b]
        mon.equal(_names(got), _names(maps[k] for k in mine), "block_maps", "maps of a block")
        mon.equal(blk.get_default_map(), maps[mine[0]], "default_map", "the first map of a block is its default map")
        for j, e in enumerate(case["regs"]):
            got = blk.get_reg_by_name(f"r{j}")
            mon.equal(got, regs[j] if e["block"] in below else None, "reg_by_name", "register by name")
        for k in mine:
            mon.equal(blk.get_map_by_name(f"m{k}"), maps[k], "map_by_name", "map by name")
    out.take()


def _names(q):
    return sorted(x.get_full_name() for x in q)


def _above(model, m, k):
    up = model.maps[m]["up"]
    return up is not None and (up == k or _above(model, up, k))


def _under(case, j, b):
    return j == b or (case["blocks"][j]["parent"] >= 0 and _under(case, case["blocks"][j]["parent"], b))
