"""C41: constrained randomization.

Each case builds a tree of objects with random variables, domains and constraints and calls randomize, randomize_with and rand_mode on
them; what every call did is judged by the domains and by evaluating the constraints in force, failures by enumerating all values. Each
case runs twice from the same seed, the second time with other randomization in between, and must give the same values. Register cases
randomize the fields of registers."""
import itertools
import random

from vp.monitor import Output

SIM = False
BATCH = 25
CASES = {"quick": 2000, "thorough": 40000}
TECHNIQUE = "runtime monitoring: values and hook calls of randomizations judged by the domains, the constraints in force and an enumeration; reruns with interference"
LEVEL_NOTE = "Random trees of objects, constraints and calls on the real base classes; exploration, no claim beyond what ran."
RULE = ("trees of 1-5 objects with 1-4 variables and 0-4 constraints each, 3-14 calls; non-trivial: a call had to meet a constraint; "
        "distinct: hash of the values drawn")
REQUIRE = {"randomize": 4000, "randomize_with": 1500, "failed": 300, "constraint_met": 4000, "implicit_met": 800, "nested": 3000, "disabled": 200,
           "replayed": 4000, "wide_draws": 1500, "registers": 100, "fields": 300, "overwritten": 100, "no_recurse": 150}
ASSUMPTIONS = ["one constraint per combination of random variables is in force, the latest, as documented for the solver", "no solve_order and no distributions"]
NAMES = ["a", "b", "c", "d"]


def gen_constraint(rng, vs):
    """[[variables], expression] over some of the variables; `lim` is a member that is not random"""
    k = rng.choice([1, 1, 1, 2, 2, 3])
    v = sorted(rng.sample(vs, min(k, len(vs))))
    n = rng.randint(0, 9)
    if len(v) == 1:
        args, x = v, v[0]
        e = rng.choice([f"{x} < {n}", f"{x} > {n}", f"{x} != {n}", f"{x} % 3 == {n % 3}", f"{x} in ({n}, {n + 2}, 7)", f"{x} <= lim", f"{x} == lim"])
    elif len(v) == 2:
        e = rng.choice(["{0} < {1}", "{0} != {1}", "{0} + {1} == %d" % n, "{0} * {1} < %d" % (n * n), "{0} + {1} > %d" % n, "({0} ^ {1}) & 1 == 1"]).format(*v)
    else:
        e = rng.choice(["{0} < {1} < {2}", "{0} + {1} + {2} == %d" % (2 * n), "len({{{0}, {1}, {2}}}) == 3"]).format(*v)
    args = sorted(v + ["lim"]) if "lim" in e else v         # (the solver takes no other members in constraints over several variables)
    return [v, args, e]


def gen(rng, tier):
    if rng.random() < .12:
        from vp.regmodel import POLICIES
        regs = []
        for _ in range(rng.randint(1, 3)):
            regs.append([[rng.choice(POLICIES), rng.randint(1, 8), rng.random() < .85, rng.random() < .3, rng.getrandbits(8)]
                         for _ in range(rng.randint(1, 4))])
        return {"regs": regs, "n": rng.randint(1, 5), "seed": rng.getrandbits(30)}
    objs = []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        wide = rng.random() < .4
        vs = []
        for x in rng.sample(NAMES, rng.randint(1, 4)):
            d = ["wide"] if wide else rng.choice([["range", rng.randint(1, 9)], ["list", sorted(rng.sample(range(12), rng.randint(1, 6)))],
                                                  ["list", rng.sample(range(12), rng.randint(1, 6))]])
            vs.append([x, d])
        names = [x for x, _ in vs]
        objs.append({"parent": rng.randrange(i) if i else -1, "how": rng.choice(["attr", "attr", "object"]), "vars": vs,
                     "constraints": [] if wide else [gen_constraint(rng, names) for _ in range(rng.choice([0, 1, 1, 2, 4]))],
                     "lim": rng.randint(0, 9), "hook": rng.choice(["", "", "lim"])})
    ops = []
    for _ in range(rng.randint(3, 14)):
        i = 0 if rng.random() < .6 else rng.randrange(len(objs))
        names = [x for x, _ in objs[i]["vars"]]
        wide = objs[i]["vars"][0][1] == ["wide"]
        op = rng.choice(["randomize"] * 5 + ["with"] * 4 + ["flat", "mode", "lim", "add", "del"])
        if op == "with":
            ops.append([i, op, [] if wide else [gen_constraint(rng, names) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]])
        elif op == "add":
            ops.append([i, op, None if wide else gen_constraint(rng, names)])
        elif op == "mode":
            ops.append([i, op, rng.random() < .5])
        else:
            ops.append([i, op, rng.randint(0, 9)])
    return {"objs": objs, "ops": ops, "seed": rng.getrandbits(30)}


class Failed(Exception):
    pass


class Play:
    def __init__(self, case, mon, noise):
        from uvm.base.uvm_object import UVMObject
        from uvm.base.uvm_exceptions import RandomizeError
        self.case, self.mon, self.noise, self.Error, self.Base = case, mon, noise, RandomizeError, UVMObject
        self.log = []
        self.drawn = set()
        play = self

        class Obj(UVMObject):
            def pre_randomize(self):
                play.log.append(("pre", self.vp))
                if play.case["objs"][self.vp]["hook"]:
                    self.lim = (self.lim + 1) % 10
                play.at[self.vp] = play.values(self.vp)

            def post_randomize(self):
                play.log.append(("post", self.vp))
                play.done[self.vp] = play.values(self.vp)
                for x, d in play.case["objs"][self.vp]["vars"]:
                    if d == ["wide"]:
                        v = (self.vp, x, getattr(self, x))
                        play.mon.check(v not in play.drawn, "drawn-again", "a random variable of 60 bits draws a value that it drew before")
                        play.drawn.add(v)
                self.derived = getattr(self, "derived", 0) + 1
        random.seed(case["seed"])
        self.objs, self.force, self.kids, self.on, self.draws = [], [], [], [], []
        self.at, self.done = {}, {}
        for i, d in enumerate(case["objs"]):
            o = Obj(f"o{i}")
            o.vp, o.lim, o.other = i, d["lim"], ("kept", i)
            self.objs.append(o)
            self.kids.append([])
            self.on.append(True)
            for x, dom in d["vars"]:
                setattr(o, x, 0)
                o.rand(x, self.domain(dom))
            self.force.append({})
            for c in d["constraints"]:
                self.add(i, c)
            if i:
                p = self.objs[d["parent"]]
                self.kids[d["parent"]].append(i)
                if d["how"] == "attr":
                    setattr(p, f"kid{i}", o)
                    p.rand(f"kid{i}")
                else:
                    p.rand(o)

    def domain(self, d):
        return range(1 << 60) if d[0] == "wide" else range(d[1]) if d[0] == "range" else list(d[1])

    def add(self, i, c):
        f = self.function(c)
        self.objs[i].constraint(f)
        self.mon.count("overwritten", tuple(c[0]) in self.force[i])
        self.force[i][tuple(c[0])] = (c, f)

    def function(self, c):
        return eval(f"lambda {', '.join(c[1])}: {c[2]}")

    def values(self, i):
        o = self.objs[i]
        res = {x: getattr(o, x) for x, _ in self.case["objs"][i]["vars"]}
        res["lim"] = o.lim
        return res

    def members(self, i):
        o = self.objs[i]
        return o.other, [id(getattr(o, f"kid{k}", None)) for k in self.kids[i]], o.get_name()

    def holds(self, c, vals):
        return eval(c[2], {}, dict(vals))

    def feasible(self, i, force, lim):
        d = self.case["objs"][i]["vars"]
        if d[0][1] == ["wide"]:
            return True
        doms = [self.domain(x[1]) for x in d]
        for v in itertools.product(*doms):
            vals = dict(zip([x[0] for x in d], v), lim=lim)
            if all(self.holds(c, vals) for c in force):
                return True
        return False

    # what a call on object i must do: the hook calls in order, or Failed
    def plan(self, i, inline, recurse, order, lims, lastpre):
        if not self.on[i]:
            self.mon.count("disabled")
            return
        order.append(("pre", i))
        lastpre.append(i)
        lims[i] = (self.objs[i].lim + 1) % 10 if self.case["objs"][i]["hook"] else self.objs[i].lim
        if recurse:
            for k in self.kids[i]:
                self.mon.count("nested")
                self.plan(k, [], True, order, lims, lastpre)
        if not self.feasible(i, self.in_force(i, inline), lims[i]):
            raise Failed(i)
        order.append(("post", i))

    def in_force(self, i, inline):
        res = {k: c for k, (c, _) in self.force[i].items()}
        for c in inline:
            res[tuple(c[0])] = c
        return list(res.values())

    def go(self):
        mon = self.mon
        for i, op, arg in self.case["ops"]:
            o = self.objs[i]
            if self.noise:
                self.disturb()
            if op == "mode":
                o.rand_mode(arg)
                self.on[i] = bool(arg)
            elif op == "lim":
                o.lim = arg
            elif op == "add":
                if arg:
                    self.add(i, arg)
            elif op == "del":
                ks = sorted(self.force[i])
                if ks:
                    o.del_constraint(self.force[i].pop(ks[arg % len(ks)])[1])
            else:
                self.call(i, op, arg if op == "with" else [])
            self.draws.append([sorted(self.values(k).items()) for k in range(len(self.objs))])
        return self.draws

    def call(self, i, op, inline):
        mon, o = self.mon, self.objs[i]
        order, lims, pre = [], {}, []
        failed = None
        try:
            self.plan(i, inline, op != "flat", order, lims, pre)
        except Failed as e:
            failed = e.args[0]
        before = [self.values(k) for k in range(len(self.objs))]
        kept = [self.members(k) for k in range(len(self.objs))]
        self.log.clear()
        self.at.clear()
        self.done.clear()
        w = dict(op=op, object=i, inline=inline, force=[self.in_force(k, []) for k in range(len(self.objs))], before=before)
        mon.count({"randomize": "randomize", "with": "randomize_with", "flat": "no_recurse"}[op])
        ok = None
        try:
            ok = o.randomize() if op == "randomize" else o.randomize(recurse=False) if op == "flat" else \
                o.randomize_with(*[self.function(c) for c in inline])
        except self.Error:
            mon.count("failed")
        after = [self.values(k) for k in range(len(self.objs))]
        w["after"] = after
        if not mon.equal(ok is None, failed is not None, "fails", "whether a randomization fails (enumeration of all values)", **w):
            return
        if failed is None:
            mon.equal(ok, True, "result", "result of a randomization that found values", **w)
        mon.equal(list(self.log), order, "hooks", "calls of pre_randomize and post_randomize", **w)
        mon.equal([self.members(k) for k in range(len(self.objs))], kept, "members", "members that are not random", **w)
        posted = {k for h, k in order if h == "post"}
        for k in range(len(self.objs)):
            if k in posted:
                mon.equal(after[k]["lim"], lims[k], "members", "a member set by pre_randomize", **w)
                mon.equal({x: v for x, v in self.at[k].items() if x != "lim"}, {x: v for x, v in before[k].items() if x != "lim"}, "early",
                          "values of the variables when pre_randomize is called", **w)
                mon.equal(self.done[k], after[k], "late", "values of the variables when post_randomize is called", **w)
                for x, d in self.case["objs"][k]["vars"]:
                    mon.check(after[k][x] in self.domain(d), "domain", "a variable got a value that is not in its domain", variable=x, **w)
                    mon.count("wide_draws", d == ["wide"])
                for c in self.in_force(k, inline if k == i else []):
                    mon.count("constraint_met")
                    mon.count("implicit_met", len(c[0]) > 1)
                    mon.nontrivial = True
                    mon.check(self.holds(c, after[k]), "constraint", "the values break a constraint in force", constraint=c[2], of=k, **w)
            else:
                same = [x for x in before[k] if x != "lim"]
                mon.equal([after[k][x] for x in same], [before[k][x] for x in same], "untouched", "variables of an object that was not randomized, or could not", of=k, **w)
        mon.event(op, i, str(after)[:300])

    def disturb(self):
        """randomization that must make no difference to the objects of the case"""
        from uvm.base.sv import sv
        rng = self.noise
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(5)
            if k == 0:
                random.random()
            elif k == 1:
                sv.urandom()
            elif k == 2:
                random.seed(rng.random())
            else:
                x = self.Base("noise")
                x.a = 0
                x.rand("a", range(100))
                x.randomize() if k == 3 else x.randomize_with(lambda a: a < 50)


def registers(case, mon):
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    import uvm.reg.uvm_reg_model as rm
    fixed = {"RO", "RC", "RS", "WC", "WS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T", "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WSRC", "WCRS", "WOC", "WOS"}
    random.seed(case["seed"])
    blk = UVMRegBlock("blk")
    blk.configure(None, "")
    fields = []
    for i, fs in enumerate(case["regs"]):
        reg = UVMReg(f"r{i}", 32)
        reg.configure(blk)
        at = 0
        for j, (pol, size, rand, limited, reset) in enumerate(fs):
            f = UVMRegField(f"f{j}")
            f.configure(reg, size, at, pol, False, reset & (1 << size) - 1, True, True, False)
            at += size
            lim = (1 << size) // 2 + 1
            if limited:
                f.constraint(eval(f"lambda value: value < {lim}"))
            if rand:
                setattr(reg, f"f{j}", f)
                reg.rand(f"f{j}")
            fields.append([f, pol, size, rand and pol not in fixed, lim if limited else 1 << size])
        setattr(blk, f"r{i}", reg)
        blk.rand(f"r{i}")
        mon.count("registers")
    blk.reset()
    seen = set()
    for n in range(case["n"]):
        was = [(f.get(), f.get_mirrored_value()) for f, *_ in fields]
        mon.equal(blk.randomize(), True, "result", "result of randomizing a block")
        for (f, pol, size, rand, lim), (d, m) in zip(fields, was):
            mon.count("fields")
            mon.nontrivial = True
            mon.equal(f.get_mirrored_value(), m, "field-mirror", "mirrored value of a field after randomizing its block", policy=pol)
            if rand:
                mon.check(0 <= f.get() < lim, "field-value", "desired value of a randomized field", policy=pol, value=f.get(), size=size, below=lim)
                mon.equal(f.value, f.get(), "field-value", "value and desired value of a randomized field", policy=pol)
            else:
                mon.equal(f.get(), d, "field-kept", "desired value of a field that cannot be written or is not random", policy=pol)
            seen.add(f.get())
            mon.event("field", pol, f.get())


def run(case, mon):
    was = random.getstate()
    try:
        with Output():
            if "regs" in case:
                registers(case, mon)
                return
            first = Play(case, mon, None).go()
            # all wide draws differ: no object repeats the values of another
            seen = {}
            for row in first:
                for k, vals in enumerate(row):
                    if case["objs"][k]["vars"][0][1] == ["wide"]:
                        for x, v in vals:
                            if x != "lim" and v:
                                mon.check(seen.setdefault(v, (k, x)) == (k, x), "repeated", "an object draws a value that another object or variable drew", value=v)
            again = Play(case, mon, random.Random(case["seed"] + 1)).go()
            mon.count("replayed", len(first))
            for a, b, op in zip(first, again, case["ops"]):
                if not mon.equal(b, a, "stability", "values of the objects after the same calls from the same seed, with other randomization in between", op=op):
                    break
    finally:
        random.setstate(was)
