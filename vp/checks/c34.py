"""C34: in-order and algorithmic comparators against a reference that pairs the n-th items of two streams.

Each case builds comparators of several kinds below one component, writes two streams of items into each with random
interleavings, delays, bursts and writes made from inside pair subscribers, and compares counts, reports and published pairs at
every quiet point. Pairs are copied and compared too."""
import itertools

from cocotb.triggers import Timer

SIM = True
BATCH = 20
CASES = {"quick": 1200, "thorough": 30000}
TECHNIQUE = "runtime monitoring: counts, reports and published pairs of comparators under random streams and schedules, against pairing by position"
LEVEL_NOTE = "Random streams and schedules on the real comparators; exploration, no claim beyond what ran."
RULE = ("1-3 comparators (built-in, class, algorithmic, user-defined policies) with 20-100 writes in random order; non-trivial: at least two pairs; "
        "distinct: hash of the pairs published")
REQUIRE = {"before": 12000, "after": 12000, "equal_pairs": 5000, "unequal_pairs": 5000, "ahead": 2000, "feedback": 400, "flushes": 400, "transformed": 2000,
           "pair_copies": 1000, "pair_equal": 100, "pairs_checked": 20000}
ASSUMPTIONS = ["Items are not changed after they are written."]
_ids = itertools.count()
KINDS = ["builtin", "class", "algo", "mod", "falsy", "base"]


def gen(rng, tier):
    comps = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(KINDS)
        comps.append({"kind": kind, "span": rng.choice([1, 2, 3, 50]), "subs": rng.choice([0, 1, 1, 2]), "feedback": rng.random() < .2,
                      "sort": rng.choice(["int", "int", "str", "tuple"]) if kind in ("builtin", "base") else ""})
    ops = []
    for _ in range(rng.randint(20, 60 if tier == "quick" else 120)):
        r = rng.random()
        if r < .15:
            ops.append(["delay", rng.choice([0, 0, 1, 2])])
        elif r < .2:
            ops.append(["check"])
        elif r < .23:
            ops.append(["flush", rng.randrange(len(comps))])
        else:
            i = rng.randrange(len(comps))
            side = rng.choice(["before", "after"])
            # runs on one side, so that one stream gets far ahead
            for _ in range(rng.choice([1, 1, 1, 2, 6])):
                ops.append([side, i, rng.randrange(comps[i]["span"])])
    return {"comps": comps, "ops": ops, "pairs": [[rng.randrange(3) for _ in range(4)] + [rng.choice(["builtin", "class"]), rng.choice(["copy", "clone"])] for _ in range(3)]}


async def run(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_object import UVMObject
    from uvm.comps.uvm_algorithmic_comparator import UVMAlgorithmicComparator
    from uvm.comps.uvm_in_order_comparator import UVMInOrderBuiltInComparator, UVMInOrderClassComparator, UVMInOrderComparator
    from uvm.comps.uvm_pair import UVMBuiltInPair, UVMClassPair
    from uvm.comps.uvm_subscriber import UVMSubscriber
    from uvm.macros import uvm_object_utils
    from vp.monitor import Output
    from vp.tasks import spawn
    tag = next(_ids)

    class Item(UVMObject):
        def __init__(self, name="item", v=0):
            super().__init__(name)
            self.v = v

        def do_compare(self, rhs, comparer):
            return self.v == rhs.v

        def do_copy(self, rhs):
            self.v = rhs.v

        def create(self, name=""):
            return Item(name)

        def convert2string(self):
            return f"<item {self.v}>"

    class Transform:
        def transform(self, b):
            mon.count("transformed")
            calls.append(b)
            return Item("t", b.v * 2 + 1)

    class Mod:
        @classmethod
        def comp(cls, a, b):
            return (a - b) % 3 == 0

    class Falsy:
        """a compare policy that returns ints, as many do"""
        @classmethod
        def comp(cls, a, b):
            return 1 if a == b else 0

    class Sub(UVMSubscriber):
        def write(self, t):
            mon.event("pair", self.i, self.k)
            self.seen.append(t)
            if self.feed is not None and self.left:
                self.left -= 1
                mon.count("feedback")
                self.feed()
    calls = []
    with Output() as out:
        top = UVMComponent(f"cmp{tag}", None)
        ports, tasks, model, all_subs = [], [], [], []
        comps = []
        for i, c in enumerate(case["comps"]):
            k = c["kind"]
            cls = {"class": UVMInOrderClassComparator, "builtin": UVMInOrderBuiltInComparator, "algo": UVMAlgorithmicComparator}.get(k, UVMInOrderComparator)
            comp = cls(f"c{i}", top, Transform()) if k == "algo" else cls(f"c{i}", top)
            inner = comp.comp if k == "algo" else comp
            if k in ("mod", "falsy"):
                inner.CompType = {"mod": Mod, "falsy": Falsy}[k]
            comps.append((comp, inner))
            subs = []
            for j in range(c["subs"]):
                s = Sub(f"s{i}_{j}", top)
                s.i, s.k, s.seen, s.feed, s.left = i, j, [], None, 3
                inner.pair_ap.connect(s.analysis_export)
                subs.append(s)
            all_subs.append(subs)
            model.append({"before": [], "after": [], "pairs": 0, "base": 0, "match": 0, "miss": 0})
            comp.connect_phase(None)
            if inner is not comp:
                inner.connect_phase(None)

        def value(c, v):
            if c["kind"] in ("class", "algo"):
                return Item("i", v)
            return {"str": f"s{v}", "tuple": (v, "x")}.get(c["sort"], v)

        def write(i, side, v):
            c = case["comps"][i]
            if c["kind"] == "algo" and side == "after":
                v = v * 2 + 1
            x = value(c, v)
            n = len(calls)
            model[i][side].append(x)
            getattr(comps[i][0], side + "_export").write(x)
            mon.count(side)
            if c["kind"] == "algo" and side == "before":
                mon.check(len(calls) == n + 1 and calls[n] is x, "transform", "the transformer was not called once with the item written")
                model[i][side][-1] = None
        for i, c in enumerate(case["comps"]):
            if c["feedback"] and all_subs[i]:
                all_subs[i][0].feed = lambda i=i: (write(i, "before", 0), write(i, "after", 0))
        top.do_resolve_bindings()
        for comp, inner in comps:
            tasks.append(spawn(mon, inner.run_phase(None)))
        reps, _ = out.take()
        mon.check(not [r for r in reps if r[0] in ("UVM_ERROR", "UVM_FATAL")], "build", lambda: str(reps[:4]))
        published = []

        async def quiet():
            await Timer(1, "NS")
            reps, _ = out.take()
            missed = 0
            for i, c in enumerate(case["comps"]):
                m = model[i]
                comp, inner = comps[i]
                n = min(len(m["before"]), len(m["after"]))
                seen = all_subs[i][0].seen if all_subs[i] else None
                for p in range(m["pairs"], n):
                    a = m["after"][p]
                    if c["kind"] == "algo":
                        src = next(calls_of(i))
                        same = src.v * 2 + 1 == a.v
                    else:
                        b = m["before"][p]
                        same = b.v == a.v if c["kind"] == "class" else (b - a) % 3 == 0 if c["kind"] == "mod" else b == a
                    if same:
                        m["match"] += 1
                    else:
                        m["miss"] += 1
                        missed += 1
                    mon.count("equal_pairs" if same else "unequal_pairs")
                    published.append((i, p, same))
                if n - m["pairs"]:
                    mon.count("batches")
                m["pairs"] = n
                mon.count("ahead", abs(len(m["before"]) - len(m["after"])) > 3)
                mon.equal((inner.m_matches, inner.m_mismatches), (m["match"], m["miss"]), "counts", "matches and mismatches of a comparator", kind=c["kind"])
                for s in all_subs[i]:
                    mon.equal(len(s.seen), n, "published", "pairs published", kind=c["kind"])
                    for p, pair in enumerate(s.seen[:n]):
                        good = pair.first is m["after"][p]
                        if c["kind"] == "algo":
                            good = good and pair.second.v == before_of[i][p].v * 2 + 1
                        else:
                            good = good and pair.second is m["before"][p]
                        mon.check(good, "pair", f"pair {p} holds {pair.first} and {pair.second}", kind=c["kind"])
                        mon.count("pairs_checked")
                        mon.check(isinstance(pair, UVMClassPair if c["kind"] in ("class", "algo") else UVMBuiltInPair), "pair_type", f"pair of type {type(pair).__name__}")
            errs = [r for r in reps if r[0] in ("UVM_ERROR", "UVM_FATAL")]
            mon.equal([r[1] for r in errs], ["Comparator Mismatch"] * missed, "reports", "errors reported by the comparators")

        before_of = {}
        taken = {}

        def calls_of(i):
            p = taken.setdefault(i, 0)
            taken[i] += 1
            yield before_of[i][p]
        # remember the originals of algorithmic comparators
        for i, c in enumerate(case["comps"]):
            before_of[i] = []
            if c["kind"] == "algo":
                t = comps[i][0].m_transformer
                real = t.transform
                t.transform = lambda b, i=i, real=real: (before_of[i].append(b), real(b))[1]
        for op in case["ops"]:
            if op[0] == "delay":
                await Timer(op[1], "NS") if op[1] else None
            elif op[0] == "check":
                await quiet()
            elif op[0] == "flush":
                await quiet()
                mon.count("flushes")
                comps[op[1]][1].flush()
                model[op[1]]["match"] = model[op[1]]["miss"] = 0
            else:
                write(op[1], op[0], op[2])
        await quiet()
        await quiet()
        for t in tasks:
            t.kill()
        # pairs
        for f1, s1, f2, s2, kind, how in case["pairs"]:
            mk = (lambda v: Item("x", v)) if kind == "class" else (lambda v: v)
            cls = UVMClassPair if kind == "class" else UVMBuiltInPair
            p, q = cls("p"), cls("q")
            p.first, p.second, q.first, q.second = mk(f1), mk(s1), mk(f2), mk(s2)
            mon.equal(bool(p.compare(q)), (f1, s1) == (f2, s2), "pair_compare", "comparing two pairs", kind=kind)
            mon.count("pair_equal" if (f1, s1) == (f2, s2) else "pair_unequal")
            if how == "copy":
                p.copy(q)
            else:
                p = q.clone()
            mon.check(bool(p.compare(q)), "pair_copy", lambda: f"a copied pair differs: {p.convert2string()} and {q.convert2string()}", kind=kind)
            if kind == "class":
                mon.check(p.first is not q.first and p.second is not q.second, "pair_deep", "a copied pair shares its objects")
                q.first.v += 1
            else:
                q.first += 1
            mon.check(not p.compare(q), "pair_copy", "a copied pair follows changes of the original", kind=kind)
            mon.count("pair_copies")
        out.take()
    mon.distinct = hash(tuple(published))
    mon.nontrivial = len(published) > 1
