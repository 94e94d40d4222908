"""C24: the component tree and every way to look components up, against a model of the tree.

Random trees with confusable names are built in random order, with attempts to create duplicates and to rename components.
After every step the children, parents, names and depths of all components are compared with the model, and random lookups
(relative, absolute, wrong) and find patterns are resolved by the model and by the library."""
import itertools

SIM = False
BATCH = 20
CASES = {"quick": 3200, "thorough": 40000}
TECHNIQUE = "runtime monitoring: results of all tree queries on random component trees checked against a model of the tree and an own glob matcher"
LEVEL_NOTE = "Random trees and queries on the real component classes and root; exploration, no claim beyond what ran."
RULE = "2-25 components, 20-60 steps; non-trivial: a lookup of depth two or more and a find with several results; distinct: hash of trees and results"
REQUIRE = {"created": 10000, "duplicates": 1200, "renames": 700, "lookups": 10000, "lookups_found": 5000, "lookups_absolute": 5000,
           "finds": 6000, "found": 15000, "finds_from": 1500, "find_none": 500, "find_many": 500, "children_checked": 60000, "unnamed": 300, "nested_iterations": 1000,
           "topology": 300}
ASSUMPTIONS = []
_ids = itertools.count()
NAMES = ["a", "b", "ab", "a_b", "a[0]", "a[1]", "a1", "a10", "A", "aa", "x_1", "m[1][0]", "uvm_test_top", "a-b", ""]


def gen(rng, tier):
    names = rng.sample(NAMES, rng.randint(2, 8))
    steps = []
    for _ in range(rng.randint(20, 40 if tier == "quick" else 70)):
        r = rng.random()
        k = rng.randint(0, 30)
        if r < .4:
            steps.append(["create", k, rng.choice(names)])
        elif r < .45:
            steps.append(["rename", k, rng.choice(["zz", "a", ""])])
        elif r < .75:
            steps.append(["lookup", k, rng.randint(0, 30), rng.choice(["rel", "rel", "abs", "abs", "wrong", "longer", "cut", "leaf"]), rng.choice(names + ["q", "a."])])
        elif r < .90:
            steps.append(["find", None if rng.random() < .6 else k, rng.randint(0, 30), [rng.choice(["*", "?", "keep", "keep", "keep", "drop", "q", "**"]) for _ in range(6)],
                          [rng.random() for _ in range(6)], rng.random() < .4])
        elif r < .985:
            steps.append(["iterate", k, rng.randint(0, 3)])
        else:
            steps.append(["topology"])
    return {"steps": steps, "names": names}


def setup():
    import uvm  # noqa
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    with Output():
        UVMCoreService.get().get_root()


def run(case, mon):
    from uvm.base.uvm_coreservice import UVMCoreService
    from vp.monitor import Output
    root = UVMCoreService.get().get_root()
    with Output() as out:
        try:
            Case(case, mon, out, root).go()
        finally:
            root.reset_report_handler()
    c = mon.counters
    mon.nontrivial = c.get("deep_lookups", 0) > 0 and c.get("found_many", 0) > 0


_model = {}      # everything ever created in this process: component id -> Node; None -> the root


class Node:
    def __init__(self, comp, name, parent):
        self.comp, self.name, self.parent, self.kids = comp, name, parent, []
        self.full = name if parent is None or parent.parent is None else parent.full + "." + name

    def child(self, name):
        for k in self.kids:
            if k.name == name:
                return k

    def post(self):
        for k in self.kids:
            yield from k.post()
        if self.name != "":
            yield self


def glob(pat, s):
    """Whether s matches the pattern with * and ?"""
    rows = {0}
    for ch in pat:
        if ch == "*":
            rows = {j for i in rows for j in range(i, len(s) + 1)}
        else:
            rows = {i + 1 for i in rows if i < len(s) and (ch == "?" or s[i] == ch)}
    return len(s) in rows


class Case:
    def __init__(self, case, mon, out, root):
        self.case, self.mon, self.out, self.root = case, mon, out, root

    def go(self):
        from uvm.base.uvm_component import UVMComponent
        if "root" not in _model:
            _model["root"] = Node(self.root, "", None)
            kids = []
            self.root.get_children(kids)
            assert not kids
        self.top = _model["root"]

        class Comp(UVMComponent):
            pass
        self.Comp = Comp
        # each case has its own top so that its names do not meet those of other cases, and a second top below the root
        self.mine = [self.new(self.top, f"t{next(_ids)}"), self.new(self.top, f"t{next(_ids)}")]
        for i, st in enumerate(self.case["steps"]):
            self.out.take()
            getattr(self, "do_" + st[0])(i, *st[1:])
            self.mon.count("steps")
        for n in [self.top] + self.mine:
            self.check_node(n)

    def node(self, k):
        return self.mine[k % len(self.mine)]

    def new(self, parent, name):
        comp = self.Comp(name, None if parent is self.top else parent.comp)
        n = Node(comp, comp.get_name() if name == "" else name, parent)
        if name == "":
            self.mon.count("unnamed")
            self.mon.check(comp.get_name().startswith("COMP_"), "name of a component created without a name", name=comp.get_name())
        parent.kids.append(n)
        self.mon.count("created")
        return n

    def check_node(self, n):
        mon, c = self.mon, n.comp
        mon.count("children_checked")
        w = dict(name=n.full)
        kids = []
        c.get_children(kids)
        mon.check(len(kids) == len(n.kids) and all(a is b.comp for a, b in zip(kids, n.kids)), "get_children", **w)
        mon.equal(c.get_num_children(), len(n.kids), "get_num_children")
        mon.equal(bool(c.has_first_child()), bool(n.kids), "has_first_child")
        for k in n.kids:
            mon.check(c.get_child(k.name) is k.comp and c.has_child(k.name), "get_child and has_child of an existing child", **w)
        mon.check(not c.has_child("nobody") and c.get_child("nobody") is None, "get_child and has_child of no child", **w)
        if n is not self.top:
            mon.check(c.get_parent() is n.parent.comp, "get_parent", **w)
            mon.equal(c.get_name(), n.name, "get_name")
            mon.equal(c.get_full_name(), n.full, "get_full_name")
            mon.equal(c.get_depth(), n.full.count(".") + 1, "get_depth")

    def do_create(self, i, k, name):
        from uvm.base.uvm_exceptions import UVMFinishError
        p = self.node(k)
        mon = self.mon
        if p.child(name) is None or name == "":
            n = self.new(p, name)
            self.mine.append(n)
            mon.equal([r[1] for r in self.out.take()[0]], [], "reports when a component is created")
            mon.event("create", n.full)
        else:
            mon.count("duplicates")
            try:
                self.Comp(name, p.comp)
                ended = False
            except UVMFinishError:
                ended = True
            reps = [r for r in self.out.take()[0] if not r[1].startswith("UVM/REPORT")]
            mon.check(len(reps) == 1 and reps[0][1] == "CLDEXT", "a duplicate child is not reported as a fatal", reps=reps)
            mon.check(ended, "the run ends for a duplicate child")
            n = p
        for x in {id(x): x for x in (n, p, self.top, self.node(i))}.values():
            self.check_node(x)

    def do_rename(self, i, k, name):
        n = self.node(k)
        n.comp.set_name(name)
        self.mon.count("renames")
        self.mon.equal([r[1] for r in self.out.take()[0]], ["INVSTNM"], "reports when a component is renamed")
        self.check_node(n)

    def do_lookup(self, i, k, t, how, extra):
        mon = self.mon
        src, dst = self.node(k), self.node(t)
        if how in ("abs", "wrong", "cut", "longer"):
            path = "." + dst.full
            base = self.top
        elif how == "leaf":
            path, base = extra, src
        else:
            a, names = dst, []
            while a is not src and a.parent is not None:
                names.insert(0, a.name)
                a = a.parent
            path, base = ".".join(names), a
            if a is not src and i % 2:
                base = src                      # a path that is relative to something else
            src = base
            if path == "":
                path, base = ".", src
        if how == "wrong":
            path = path[:-1] + ("q" if path[-1] != "q" else "p")
        elif how == "longer":
            path += "." + extra
        elif how == "cut":
            path = path[:-1]
        if path.endswith(".") or ".." in path or path == "":
            return                              # names without a component are not specified
        want, names = self.top if path.startswith(".") else src, path.lstrip(".").split(".")
        for s in names:
            want = want and want.child(s)
        got = src.comp.lookup(path)
        mon.count("lookups")
        mon.count("lookups_absolute", path.startswith("."))
        mon.count("lookups_found", want is not None)
        mon.count("deep_lookups", want is not None and len(names) > 2)
        mon.check(got is (want and want.comp), "component found by lookup", path=path, start=src.full, got=got and got.get_full_name(), want=want and want.full)
        reps = [r[1] for r in self.out.take()[0]]
        mon.equal(reps, [] if want else ["Lookup Error"], "reports of a lookup")
        mon.event("lookup", how, want is not None, path.count("."))

    def do_find(self, i, k, t, edits, places, single):
        mon = self.mon
        pat = list(self.node(t).full)
        for e, p in zip(edits, places):
            j = int(p * len(pat))
            if e == "drop":
                pat[j:j + 1] = []
            elif e == "**":
                pat[j:j + 3] = ["*"]
            elif e != "keep":
                pat[j:j + 1] = [e]
            if not pat:
                pat = ["*"]
        pat = "".join(pat)
        if pat.startswith(("/", ".", "^")):
            return
        start = self.top if k is None else self.node(k)
        want = [n for n in start.post() if glob(pat, n.full)]
        mon.count("finds")
        mon.count("finds_from", k is not None)
        mon.count("found", len(want))
        mon.count("found_many", len(want) > 1)
        res = []
        if k is None:
            self.root.find_all(pat, res)
        else:
            self.root.find_all(pat, res, start.comp)
        mon.check({id(x) for x in res} == {id(n.comp) for n in want} and len(res) == len(want), "components found by find_all", pattern=pat, start=start.full,
                  got=[x.get_full_name() for x in res][:10], want=[n.full for n in want][:10])
        mon.event("find", pat.count("*"), len(res))
        if single and k is None:
            self.out.take()
            got = self.root.find(pat)
            reps = [r[1] for r in self.out.take()[0]]
            mon.count("find_none", not want)
            mon.count("find_many", len(want) > 1)
            mon.check((got is None) == (not want) and (got is None or any(got is n.comp for n in want)), "component found by find", pattern=pat)
            mon.equal(reps, ["CMPNFD"] if not want else ["MMATCH"] if len(want) > 1 else [], "reports of find")

    def do_iterate(self, i, k, inner):
        mon, n = self.mon, self.node(k)
        n = n if n.kids or i % 4 == 0 else max(self.mine, key=lambda x: len(x.kids))
        if not n.kids:
            mon.equal(n.comp.get_first_child(), None, "get_first_child without children")
            return
        got = [n.comp.get_first_child()]
        while n.comp.has_next_child() and len(got) <= len(n.kids):
            if inner == 1:
                self.root.find_all("*", [])
            elif inner == 2:
                got[-1].lookup("." + n.full)
                n.comp.get_children([])
            mon.count("nested_iterations", inner in (1, 2))
            got.append(n.comp.get_next_child())
        mon.check([id(x) for x in got] == [id(x.comp) for x in n.kids], f"children visited by get_first_child and get_next_child{' (with find_all in between)' if inner == 1 else ''}",
                  got=len(got), want=len(n.kids))
        mon.equal(n.comp.get_next_child(), None, "get_next_child after the last")

    def do_topology(self, i):
        mon = self.mon
        off = {id(n) for n in self.mine[2:] if (len(n.full) + i) % 7 == 0}
        for n in self.mine:
            n.comp.print_enabled = id(n) not in off
        for n in self.top.kids:
            if n not in self.mine:
                n.comp.print_enabled = False
        mon.count("topology")
        self.out.take()
        self.root.print_topology()
        reps, text = self.out.take()
        rows = [(len(l) - len(l.lstrip()), l.split()[0]) for l in text.split("\n") if l.split()[3:] and l.split()[3].startswith("@") and not l.startswith("UVM_")]

        def visit(n, depth):
            if id(n) not in off and n in self.mine:
                want.append((depth * 2, n.name))
                for x in n.kids:
                    visit(x, depth + 1)
        want = []
        for n in self.mine[:2]:
            visit(n, 0)
        mon.check(rows == want, "components shown by print_topology", got=rows[:12], want=want[:12], text=text[:900])
        for n in self.mine:
            n.comp.print_enabled = True
