"""C46: which coverage models the elements of a register model have, measure and sample.

Generated register models and calls of include_coverage, build_coverage, add_coverage, set_coverage, get_coverage and sample_values; a
model of the tree says what each has to return or call. That accesses are sampled is part of C27, C28 and C30."""
import fnmatch

from vp.monitor import Output

SIM = False
BATCH = 25
CASES = {"quick": 2000, "thorough": 30000}
TECHNIQUE = "runtime monitoring: results of the coverage calls on generated register models, and the samples taken, against a model of the tree"
LEVEL_NOTE = "Random register models and calls on the real classes; exploration, no claim beyond what ran."
RULE = ("trees of 1-6 blocks with 0-4 registers and memories each, 0-4 included scopes, 3-20 calls; non-trivial: a block with elements below was "
        "turned on; distinct: hash of the results")
REQUIRE = {"built": 4000, "built_none": 800, "built_some": 700, "several_match": 120, "added": 800, "set_block": 2500, "set_element": 600, "turned_off": 400,
           "on": 3000, "off": 3000, "sampled": 1500, "sampled_deep": 500}
ASSUMPTIONS = ["among several included scopes that match, the first counts, as in the resource database (C17)"]
REG_BITS, ADDR_MAP, FIELD_VALS, ALL = 1, 2, 4, -1
MODELS = [1, 2, 4, 3, 5, 6, 7, -1, 0]


def gen(rng, tier):
    blocks = [-1] + [rng.randrange(i) for i in range(1, rng.choice([1, 2, 3, 4, 6]))]
    elems = []
    for b in range(len(blocks)):
        elems += [[rng.choice(["reg", "reg", "mem"]), b, rng.choice(MODELS), rng.random() < .5] for _ in range(rng.randint(0, 4))]
    incl = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 4])):
        incl.append([rng.choice(["*", "exact", "below", "tail", "question", "early"]), rng.random(), rng.choice(MODELS), rng.choice(["before", "before", "later"])])
    ops = []
    for _ in range(rng.randint(3, 20)):
        ops.append([rng.choice(["set"] * 4 + ["set_block"] * 4 + ["add", "build", "sample", "sample"]), rng.random(), rng.choice(MODELS)])
    return {"blocks": blocks, "elems": elems, "incl": incl, "ops": ops, "has": [rng.choice(MODELS) for _ in blocks],
            "early": [rng.random() < .5 for _ in blocks]}


def run(case, mon):
    from uvm.reg.uvm_mem import UVMMem
    from uvm.reg.uvm_reg import UVMReg
    from uvm.reg.uvm_reg_block import UVMRegBlock
    from uvm.reg.uvm_reg_field import UVMRegField
    tag = f"q{run.n}q"
    run.n += 1
    sampled = []
    objs, names, parents, has = [], [], [], []      # blocks first
    blocks = case["blocks"]

    class Block(UVMRegBlock):
        def sample_values(self):
            sampled.append(self.vp)
            super().sample_values()

    class Reg(UVMReg):
        def sample_values(self):
            sampled.append(self.vp)
            super().sample_values()
    # the names: an early query knows only the own name of an element
    for i, p in enumerate(blocks):
        own = f"{tag}b{i}"
        names.append(own if p < 0 else f"{names[p]}.{own}")
    for i, (kind, b, _, _) in enumerate(case["elems"]):
        names.append(f"{names[b]}.{tag}{kind}{i}")
    n = len(names)
    scopes = []

    def include(when):
        for how, x, models, w in case["incl"]:
            if w != when:
                continue
            k = int(x * n)
            pat = {"*": f"*{tag}*", "exact": names[k], "below": names[k] + ".*", "tail": "*" + names[k][-4:], "question": names[k][:-1] + "?",
                   "early": names[k].split(".")[-1]}[how]
            if how == "tail":
                pat = f"*{tag}{pat}"
            UVMReg.include_coverage(pat, models)
            scopes.append((pat, models))

    def included(name):
        hits = [m for p, m in scopes if fnmatch.fnmatchcase(name, p)]
        mon.count("several_match", len(set(hits)) > 1)
        return hits[0] if hits else 0

    def build(o, name, models):
        mon.count("built")
        want = included(name) & models
        mon.count("built_some" if want else "built_none")
        got = o.build_coverage(models)
        if any(fnmatch.fnmatchcase(name, p) != fnmatch.fnmatchcase(name, f"*{p}*") for p, _ in scopes):
            mon.count("within")         # known finding of C17: patterns are searched for within the scope
            return got
        mon.equal(got, want, "build", "build_coverage", name=name.replace(tag, ""), scopes=[(p.replace(tag, ""), m) for p, m in scopes])
        return want

    with Output() as out:
        include("before")
        for i, p in enumerate(blocks):
            own = names[i].split(".")[-1]
            if case["early"][i]:
                o = Block(own)
                m = build(o, own, case["has"][i])
                o.add_coverage(m)
            else:
                m = case["has"][i]
                o = Block(own, m)
            o.vp = i
            o.configure(objs[p] if p >= 0 else None)
            objs.append(o)
            parents.append(p)
            has.append(m)
        for i, (kind, b, m, early) in enumerate(case["elems"]):
            own = names[len(blocks) + i].split(".")[-1]
            new = (lambda c: Reg(own, 8, c)) if kind == "reg" else (lambda c: UVMMem(own, 4, 8, "RW", c))
            if early:
                o = new(0)
                m = build(o, own, m)
                o.add_coverage(m)
            else:
                o = new(m)
            o.vp = len(blocks) + i
            if kind == "reg":
                o.configure(objs[b])
                f = UVMRegField("f")
                f.configure(o, 8, 0, "RW", 0, 0, True, True, False)
            else:
                o.configure(objs[b])
            objs.append(o)
            parents.append(b)
            has.append(m)
        include("later")
        on = [0] * n

        def below(i):
            res = [i]
            for j in range(n):
                if parents[j] in res and j not in res:
                    res.append(j)
            return res

        def look(what):
            for i, o in enumerate(objs):
                for m in (1, 2, 4, 5, 7, ALL):
                    mon.equal(bool(o.has_coverage(m)), has[i] & m == m, "has", "has_coverage", models=m, has=has[i], after=what, kind=type(o).__name__)
                    want = has[i] & m == m and on[i] & m == m
                    mon.count("on" if want else "off")
                    mon.equal(bool(o.get_coverage(m)), want, "get", "get_coverage", models=m, has=has[i], on=on[i], after=what, kind=type(o).__name__)
        look("construction")
        deep = False
        for op, x, models in case["ops"]:
            i = int(x * (len(blocks) if op in ("set_block", "sample") else n))
            o = objs[i]
            if op.startswith("set"):
                o.set_coverage(models)
                mon.count("set_block" if i < len(blocks) else "set_element")
                hit = below(i)
                deep = deep or len(hit) > 1 and models != 0
                for j in hit:
                    mon.count("turned_off", bool(on[j] & ~(has[j] & models)))
                    on[j] = has[j] & models
            elif op == "add":
                o.add_coverage(models)
                has[i] |= models
                mon.count("added")
            elif op == "build":
                build(o, names[i], models)
            else:
                sampled.clear()
                o.sample_values()
                want = sorted(j for j in below(i) if not isinstance(objs[j], UVMMem))
                mon.count("sampled")
                mon.count("sampled_deep", any(parents[j] != i for j in want if j != i))
                mon.equal(sorted(sampled), want, "sample_values", "elements whose values were sampled")
            mon.event(op, i, models, list(on))
            look(op)
    mon.equal([r for r in out.reports() if r[0] in ("UVM_ERROR", "UVM_FATAL", "UVM_WARNING")], [], "reports", "reports")
    mon.nontrivial = deep


run.n = 0
