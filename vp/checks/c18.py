"""C18: copy, clone and compare against a reference walk over the objects' registered fields.

Each case builds 1-6 classes (inheritance, field flags, user do_copy/do_compare), a graph of objects of them
(nesting, sharing, cycles, lists, dicts), clones or copies it, checks the result against the source structurally
(values, sharing, no common mutable state), then changes random places in the copy and compares again: the
miscompares counted and reported have to be those of the reference walk. Sources are re-read after every step.
Not covered: graphs whose sharing differs on the two sides of a compare."""
import re

from vp.monitor import Output

SIM = False
BATCH = 50
CASES = {"quick": 4000, "thorough": 60000}
TECHNIQUE = "runtime monitoring: copies and compare results of random object graphs checked against a reference walk over the fields"
LEVEL_NOTE = "Random class definitions, object graphs and changes on the real copy/clone/compare; exploration, no claim beyond what ran."
RULE = ("1-6 classes with 0-5 registered fields each, 1-8 objects linked at random, one copy or clone, 1-4 rounds of changes; non-trivial: "
        "at least 4 fields compared; distinct: hash of the case's observations")
REQUIRE = {"copies": 3000, "shared_or_cyclic": 500, "diffs_reported": 2500, "container_fields": 2500, "nocopy_fields": 600,
           "reference_fields": 180, "inherited_fields": 1500, "limited_reports": 800, "restored_equal": 1500, "reference_policy": 300}
ASSUMPTIONS = []

KINDS = ["int", "int", "big", "str", "float", "obj", "obj", "obj", "ilist", "olist", "dict", "odict", "nested", "bytes", "any"]
MASKS = ["DEFAULT", "DEFAULT", "DEFAULT", "ALL_ON", "ALL_ON", "NOCOPY", "NOCOMPARE", "REFERENCE", "COPYONLY", "COMPAREONLY"]


def gen(rng, tier):
    ncls = rng.randint(1, 4 if tier == "quick" else 6)
    classes = []
    for i in range(ncls):
        fields = []
        for k in range(rng.randint(0 if i else 1, 4 if tier == "quick" else 5)):
            kind = rng.choice(KINDS)
            mask = rng.choice(MASKS)
            if mask == "REFERENCE" and kind not in ("obj", "olist"):
                mask = "DEFAULT"
            fields.append([f"f{i}_{k}", kind, mask])
        classes.append({"base": rng.randint(0, i - 1) if i and rng.random() < 0.5 else None, "fields": fields,
                        "hand": rng.choice([None, None, "cmp", "bool", "sub"])})
    nobj = rng.randint(1, 6 if tier == "quick" else 8)
    objs = [rng.randint(0, ncls - 1) for _ in range(nobj)]
    return {"classes": classes, "objs": objs, "seed": rng.randint(0, 1 << 30), "how": rng.choice(["clone", "copy", "copy"]),
            "cyclic": rng.random() < 0.5, "rounds": rng.randint(1, 2 if tier == "quick" else 4), "name": rng.choice(["top", "top", ""])}


def setup():
    import uvm  # noqa


def run(case, mon):
    import random
    rng = random.Random(case["seed"])
    out = Output()
    with out:
        Case(case, mon, rng, out).go()
    mon.nontrivial = mon.counters.get("fields_compared", 0) >= 4


class Case:
    def __init__(self, case, mon, rng, out):
        self.case, self.mon, self.rng, self.out = case, mon, rng, out

    # ---- building ------------------------------------------------------------------------------
    def build_classes(self):
        from uvm.base.uvm_object import UVMObject
        import uvm.base.uvm_object_globals as g
        import uvm.macros.uvm_object_defines as d
        masks = {"DEFAULT": g.UVM_DEFAULT, "ALL_ON": g.UVM_ALL_ON, "NOCOPY": g.UVM_ALL_ON | g.UVM_NOCOPY,
                 "NOCOMPARE": g.UVM_ALL_ON | g.UVM_NOCOMPARE, "REFERENCE": g.UVM_ALL_ON | g.UVM_REFERENCE,
                 "COPYONLY": g.UVM_COPY, "COMPAREONLY": g.UVM_COMPARE}
        self.classes, self.fields = [], []
        for n, c in enumerate(self.case["classes"]):
            base = UVMObject if c["base"] is None else self.classes[c["base"]]
            own = c["fields"]
            T = self.make_class(f"VpC18_{n}", base, own, c["hand"])
            d.uvm_object_utils_begin(T)
            for name, kind, mask in own:
                {"int": d.uvm_field_int, "big": d.uvm_field_int, "str": d.uvm_field_string, "obj": d.uvm_field_object}.get(
                    kind, d.uvm_field_val)(name, masks[mask])
            d.uvm_object_utils_end(T)
            inherited = [] if c["base"] is None else self.fields[c["base"]]
            self.mon.count("inherited_fields", len(inherited))
            self.classes.append(T)
            self.fields.append(inherited + own)

    def make_class(self, name, base, own, hand):
        def __init__(self, name=""):
            base.__init__(self, name)
            for f, kind, _ in own:
                setattr(self, f, DEFAULTS[kind]())
            self.hand = 0
            self.sub1 = None
            self.sub2 = None
        members = {"__init__": __init__}
        if hand is not None:
            def do_copy(self, rhs):
                base.do_copy(self, rhs)
                if self.vp_owner == name and hasattr(rhs, "hand"):      # one class of the hierarchy looks at the members
                    self.hand = rhs.hand
                    if hand == "sub":
                        self.sub1 = None if rhs.sub1 is None else rhs.sub1.clone()
                        self.sub2 = None if rhs.sub2 is None else rhs.sub2.clone()

            def do_compare(self, rhs, comparer):
                ok = base.do_compare(self, rhs, comparer)
                if self.vp_owner == name and hasattr(rhs, "hand"):
                    if hand == "bool":
                        return ok and not (self.hand ^ rhs.hand) & 0xffffffff
                    ok = comparer.compare_field_int("hand", self.hand, rhs.hand, 32) and ok
                    if hand == "sub":
                        for s in ("sub1", "sub2"):
                            ok = comparer.compare_object(s, getattr(self, s), getattr(rhs, s)) and ok
                return bool(ok)
            members.update(do_copy=do_copy, do_compare=do_compare)
            members["vp_hand"] = lambda self: hand
            members["vp_owner"] = name
        elif not hasattr(base, "vp_hand"):
            members["vp_hand"] = lambda self: None
        return type(name, (base,), members)

    def leaf(self, i):
        """An object without links, for members copied by do_copy"""
        o = self.classes[0]("leaf%d" % i)
        for f, kind, _ in self.fields[0]:
            if kind in ("int", "big", "str", "float"):
                setattr(o, f, self.value(kind, None))
        return o

    def value(self, kind, targets):
        rng = self.rng
        obj = (lambda: rng.choice(targets + [None])) if targets is not None else (lambda: None)
        if kind == "int":
            return rng.choice([0, 1, -1, rng.randint(-1 << 31, 1 << 31), rng.randint(0, 255), 1 << 31, 1 << 63])
        if kind == "big":
            return rng.getrandbits(rng.choice([1, 63, 64, 65, 128, 500])) * rng.choice([1, 1, -1])
        if kind == "str":
            return rng.choice(["", "a", "%s %0d", "x.y", "é", "abc" * 5])
        if kind == "float":
            return rng.choice([0.0, 1.5, -2.25, 1e300, float(rng.randint(0, 9))])
        if kind == "obj":
            return obj()
        if kind == "ilist":
            return [rng.randint(-3, 300) for _ in range(rng.randint(0, 4))]
        if kind == "olist":
            return [obj() for _ in range(rng.randint(0, 3))]
        if kind == "dict":
            return {rng.choice(["a", "b", "c", "d", 3, 4]): rng.randint(0, 9) for _ in range(rng.randint(0, 5))}
        if kind == "odict":
            return {rng.choice(["a", "b", 3, 4]): obj() for _ in range(rng.randint(0, 3))}
        if kind == "nested":
            return [[rng.randint(0, 3) for _ in range(rng.randint(0, 3))] if rng.random() < 0.7 else {"k": [rng.randint(0, 5)]}
                    for _ in range(rng.randint(0, 3))]
        if kind == "bytes":
            return bytearray(rng.getrandbits(8) for _ in range(rng.randint(0, 4)))
        return rng.choice([None, 5, "s", 2.5, True, (1, 2), (1, [2, 3])])

    def build_objects(self):
        case, rng = self.case, self.rng
        objs = [self.classes[k](case["name"] if i == 0 else "o%d" % i) for i, k in enumerate(case["objs"])]
        self.index = {id(o): i for i, o in enumerate(objs)}
        for i, o in enumerate(objs):
            targets = objs if case["cyclic"] else objs[i + 1:]
            for f, kind, _ in self.fields_of(o):
                if rng.random() < 0.85:
                    setattr(o, f, self.value(kind, list(targets)))
            o.hand = rng.randint(0, 3)
            if o.vp_hand() == "sub":
                o.sub1 = self.leaf(i)
                o.sub2 = o.sub1 if rng.random() < 0.5 else None
        self.objs = objs

    def fields_of(self, o):
        return self.fields[self.classes.index(type(o))] if type(o) in self.classes else []

    # ---- reading ---------------------------------------------------------------------------------
    def snap(self, roots):
        """The complete state reachable from roots, by identity"""
        from uvm.base.uvm_object import UVMObject
        seen, todo, res = set(), list(roots), []
        keep = []
        while todo:
            v = todo.pop()
            if id(v) in seen or not isinstance(v, (UVMObject, list, dict, tuple, bytearray)):
                continue
            seen.add(id(v))
            keep.append(v)
            if isinstance(v, UVMObject):
                kids = [getattr(v, f) for f, _, _ in self.fields_of(v)] + [v.hand, v.sub1, v.sub2] if hasattr(v, "hand") else []
                res.append((id(v), v.get_name()))
            elif isinstance(v, dict):
                kids = list(v.values())
                res.append((id(v), tuple(v.keys())))
            else:
                kids = list(v)
                res.append((id(v), len(v)))
            res.append(tuple(id(k) if isinstance(k, (UVMObject, list, dict, tuple, bytearray)) else (type(k).__name__, k) for k in kids))
            todo += kids
        return res, keep

    # ---- reference: copies -----------------------------------------------------------------------
    def check_copy(self, src, dst, path, pre):
        from uvm.base.uvm_object import UVMObject
        mon = self.mon
        if isinstance(src, UVMObject):
            if id(src) in self.map:
                mon.count("shared_or_cyclic")
                mon.check(self.map[id(src)] is dst, f"{path}: an object referenced twice by the source is two objects in the copy")
                return
            mon.check(isinstance(dst, UVMObject) and dst is not src, f"{path}: the copy refers to {describe(dst)} instead of a copy of the object")
            mon.check(id(dst) not in self.taken, f"{path}: the copy of two different objects is one object")
            self.map[id(src)] = dst
            self.taken[id(dst)] = dst
            mon.check(type(src) is type(dst), f"{path}: copied as {type(dst).__name__}, source is {type(src).__name__}")
            if path != "":
                mon.equal(dst.get_name(), src.get_name(), f"name of the copy at {path}")
            for f, kind, mask in self.fields_of(src):
                s, d = getattr(src, f), getattr(dst, f)
                here = f"{path}.{f}"
                if mask in ("NOCOPY", "COMPAREONLY"):
                    mon.count("nocopy_fields")
                    if path == "":
                        mon.check(d is pre[f][0] and repr_of(d) == pre[f][1], f"{here}: a field not to be copied was changed by copy")
                    else:
                        mon.check(repr_of(d) == repr_of(DEFAULTS[kind]()), f"{here}: a field not to be copied was changed by copy to {describe(d)}")
                elif mask == "REFERENCE":
                    mon.count("reference_fields")
                    mon.check(d is s, f"{here}: a reference field holds {describe(d)} and not the source's handle")
                else:
                    self.check_copy(s, d, here, None)
            if src.vp_hand():
                mon.equal(dst.hand, src.hand, f"{path}: member copied by do_copy")
            if src.vp_hand() == "sub":
                for n in ("sub1", "sub2"):
                    s, d = getattr(src, n), getattr(dst, n)
                    mon.check((s is None) == (d is None), f"{path}.{n}: cloned by do_copy, {describe(d)} for {describe(s)}")
                    if s is not None:
                        mon.check(d is not s, f"{path}.{n}: shared with the source")
                        for f, _, mask in self.fields_of(s):
                            if mask not in ("NOCOPY", "COMPAREONLY"):
                                mon.check(repr_of(getattr(d, f)) == repr_of(getattr(s, f)), f"{path}.{n}.{f}: {getattr(d, f)!r} in the copy made by clone in do_copy, "
                                          f"source has {getattr(s, f)!r}")
        elif isinstance(src, (list, dict, bytearray)):
            mon.count("container_fields")
            mon.check(type(src) is type(dst) and dst is not src, f"{path}: the copy has {describe(dst)} for the container {describe(src)}"
                      + (" (the same container)" if dst is src else ""))
            if isinstance(src, bytearray):
                mon.equal(bytes(dst), bytes(src), f"{path}: bytes")
            else:
                ks = list(src) if isinstance(src, dict) else list(range(len(src)))
                kd = list(dst) if isinstance(dst, dict) else list(range(len(dst)))
                mon.equal(kd, ks, f"{path}: indices of the copy")
                for k in ks:
                    self.check_copy(src[k], dst[k], f"{path}[{k}]", None)
        elif isinstance(src, tuple):
            mon.check(isinstance(dst, tuple) and len(src) == len(dst), f"{path}: tuple copied as {describe(dst)}")
            for k in range(len(src)):
                self.check_copy(src[k], dst[k], f"{path}[{k}]", None)
        else:
            mon.check(type(src) is type(dst) and (src == dst), f"{path}: {dst!r} in the copy, source has {src!r}")

    # ---- reference: compare ----------------------------------------------------------------------
    def diff(self, a, b, path, res, reference=False):
        """Appends the paths where a and b differ. Returns whether they are equal."""
        from uvm.base.uvm_object import UVMObject
        before = len(res)
        if a is b:
            return True
        if isinstance(a, (UVMObject, type(None))) and isinstance(b, (UVMObject, type(None))):
            if a is None or b is None or (reference and path.count(".") + path.count("[") > 0):
                res.append(path)
                return False
            if id(b) in self.seen:
                return True     # compared before
            self.seen.add(id(b))
            if a.get_type_name() != b.get_type_name():
                res.append(path)
            for f, _, mask in self.fields_of(a):
                if hasattr(b, f) and mask not in ("NOCOMPARE", "COPYONLY"):
                    self.mon.count("fields_compared")
                    self.diff(getattr(a, f), getattr(b, f), path + "." + f, res, reference)
            hand = a.vp_hand()
            ok = True
            if hand in ("cmp", "sub") and (a.hand ^ b.hand) & 0xffffffff:
                res.append(path + ".hand")
            if hand == "bool" and (a.hand ^ b.hand) & 0xffffffff:
                ok = False
            if hand == "sub":
                for s in ("sub1", "sub2"):
                    self.diff(getattr(a, s), getattr(b, s), path + "." + s, res, reference)
            if not ok and len(res) == before and path != self.top:
                res.append(path)
            return ok and len(res) == before
        if type(a) in (int, bool, str, float) or type(b) in (int, bool, str, float):
            if not (a == b):
                res.append(path)
            return len(res) == before
        for t in (list, tuple), dict:
            if isinstance(a, t) and isinstance(b, t):
                ka = set(a) if t is dict else set(range(len(a)))
                kb = set(b) if t is dict else set(range(len(b)))
                if ka != kb:
                    res.append(path)
                else:
                    for k in a if t is dict else range(len(a)):
                        self.diff(a[k], b[k], f"{path}[{k}]", res, reference)
                return len(res) == before
        if not (a == b):
            res.append(path)
        return len(res) == before

    def compare(self, a, b, show_max, what):
        from uvm.base.uvm_comparer import UVMComparer
        import uvm.base.uvm_object_globals as g
        mon = self.mon
        cmpr = UVMComparer()
        cmpr.show_max = show_max
        reference = self.rng.random() < 0.15
        if reference:
            cmpr.policy = g.UVM_REFERENCE
            mon.count("reference_policy")
        self.top = a.get_name() or "<object>"
        want, self.seen = [], set()
        equal = self.diff(a, b, self.top, want, reference)
        before = self.snap([a, b])
        self.out.take()
        got = a.compare(b, cmpr)
        reports, text = self.out.take()
        mon.check(self.snap([a, b])[0] == before[0], f"{what}: compare changed one of the objects")
        said = [m for m in re.findall(r"Miscompare for (.*?): ", text)]
        mon.event("cmp", bool(got), cmpr.result, said[:4])
        mon.equal(bool(got), equal, f"{what}: compare returned {got}, the places that differ are {want}; equal")
        n = len(want)
        if n < show_max:
            mon.equal(cmpr.result, n, f"{what}: differences counted, at {want}, reported {said}")
            mon.equal(sorted(said), sorted(want), f"{what}: places reported as different")
        else:
            mon.count("limited_reports")
            mon.check(cmpr.result >= show_max, f"{what}: {cmpr.result} differences counted of {n}, show_max {show_max}")
            mon.check(cmpr.result <= n, f"{what}: {cmpr.result} differences counted, there are {n}")
            mon.equal(len(said), show_max, f"{what}: differences reported of {n}, show_max {show_max}")
            mon.check(set(said) <= set(want), f"{what}: reported {said}, different are {want}")
        mon.count("diffs_reported", len(said))
        return equal

    # ---- changes ---------------------------------------------------------------------------------
    def places(self, root):
        """(container, key) of every changeable place below root"""
        from uvm.base.uvm_object import UVMObject
        seen, todo, res, keep = set(), [root], [], []
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            keep.append(v)
            if isinstance(v, UVMObject):
                for f, kind, mask in self.fields_of(v):
                    if mask == "REFERENCE":
                        continue
                    res.append((v, f, kind))
                    todo.append(getattr(v, f))
                if v.vp_hand():
                    res.append((v, "hand", "int"))
                if v.vp_hand() == "sub":
                    todo += [v.sub1] if v.sub1 is v.sub2 else [v.sub1, v.sub2]
            elif isinstance(v, (list, dict)):
                for k in list(v) if isinstance(v, dict) else range(len(v)):
                    res.append((v, k, "elem"))
                    todo.append(v[k])
                res.append((v, None, "size"))
            elif isinstance(v, tuple):
                todo += list(v)
        return res

    def change(self, place):
        """Changes one place, returns how to undo it"""
        from uvm.base.uvm_object import UVMObject
        rng = self.rng
        c, k, kind = place
        if kind == "size":
            old = c.copy()

            def undo(c=c, old=old):
                c.clear()
                c.extend(old) if isinstance(c, list) else c.update(old)
            if isinstance(c, dict):
                if c and rng.random() < 0.5:
                    k = rng.choice(list(c))
                    gone = c.pop(k)
                    if rng.random() < 0.5:
                        c["renamed"] = gone
                else:
                    c["new%d" % rng.randint(0, 9)] = 1
            elif c and rng.random() < 0.5:
                c.pop()
            else:
                c.append(rng.randint(0, 9))
            return undo
        old = getattr(c, k) if isinstance(c, UVMObject) else c[k]
        if isinstance(old, bool) or old is None:
            new = self.stranger()
        elif isinstance(old, int):
            new = rng.choice([old + 1, old ^ (1 << rng.choice([0, 5, 31, 32, 63, 64, 100])), -old - 1, old + (1 << 32)])
        elif isinstance(old, float):
            new = old + 0.5 if abs(old) < 1e9 else 1.0
        elif isinstance(old, str):
            new = old + rng.choice(["x", " ", "\n"])
        elif isinstance(old, bytearray):
            new = bytearray(old + b"x")
        elif isinstance(old, UVMObject):
            once = [getattr(p[0], p[1]) if isinstance(p[0], UVMObject) else p[0][p[1]] for p in self.all_places
                    if p[2] != "size"].count(old) == 1
            new = self.stranger() if once and old not in self.objs_in_tree and rng.random() < 0.6 else None
        elif isinstance(old, (list, dict)):
            new = rng.choice([None, 7, "other", [old]])
        else:
            new = rng.choice([None, 99, "other"])
        setattr(c, k, new) if isinstance(c, UVMObject) else c.__setitem__(k, new)

        def undo(c=c, k=k, old=old):
            setattr(c, k, old) if isinstance(c, UVMObject) else c.__setitem__(k, old)
        return undo

    def stranger(self):
        from uvm.base.uvm_object import UVMObject
        if not hasattr(Case, "Stranger"):
            from uvm.macros.uvm_object_defines import uvm_object_utils
            Case.Stranger = uvm_object_utils(type("VpC18Stranger", (UVMObject,), {"vp_hand": lambda self: None}))
        o = Case.Stranger("stranger")
        o.hand, o.sub1, o.sub2 = 0, None, None
        return o

    # ---- the case --------------------------------------------------------------------------------
    def go(self):
        case, mon, rng = self.case, self.mon, self.rng
        self.build_classes()
        self.build_objects()
        src = self.objs[0]
        before = self.snap(self.objs)
        mon.count("copies")
        pre = {}
        if case["how"] == "clone":
            dst = src.clone()
            for f, kind, mask in self.fields_of(src):
                pre[f] = (getattr(dst, f), repr_of(DEFAULTS[kind]()))
        else:
            dst = type(src)(case["name"])
            for f, kind, mask in self.fields_of(dst):
                if rng.random() < 0.5:
                    setattr(dst, f, self.value(kind, list(self.objs) if kind in ("obj", "olist", "odict") and rng.random() < 0.5 else None))
                pre[f] = (getattr(dst, f), repr_of(getattr(dst, f)))
            dst.copy(src)
        mon.check(self.snap(self.objs)[0] == before[0], "copy changed its source")
        self.map, self.taken = {}, {}
        self.check_copy(src, dst, "", pre)
        mon.check(not (set(self.taken) & set(self.index)), "the copy contains an object of the source")
        mon.event("copied", len(self.map))
        # a deep copy is equal, unless a field that is compared was not copied
        self.make_comparable(src, dst)
        a, b = (src, dst) if rng.random() < 0.5 else (dst, src)
        self.compare(a, b, rng.choice([1, 100]), "after the copy")
        mon.check(src.compare(dst) == src.compare(dst), "two compares of the same objects disagree")
        for r in range(case["rounds"]):
            places = [p for p in self.places(dst) if isinstance(p[0], (list, dict)) or hasattr(p[0], str(p[1]))]
            if not places:
                break
            held = self.snap(self.objs)
            undo = []
            self.all_places, self.objs_in_tree = self.places(dst), [dst]
            for p in rng.sample(places, min(len(places), rng.choice([1, 1, 2, 3, 5]))):
                try:
                    undo.append(self.change(p))
                except (IndexError, KeyError):
                    continue    # the place went away with an earlier change
            mon.check(self.snap(self.objs)[0] == held[0], "a change in the copy changed the source")
            a, b = (src, dst) if rng.random() < 0.5 else (dst, src)
            self.compare(a, b, rng.choice([1, 2, 1000, 1000]), f"round {r}")
            for u in reversed(undo):
                u()
            if self.compare(src, dst, 1000, f"round {r}, changes undone"):
                mon.count("restored_equal")
        res = src.compare(None)
        mon.check(not res, "compare with None returned True")
        mon.check(src.compare(src), "an object is not equal to itself")

    def make_comparable(self, src, dst):
        """Fields compared but not copied: give copies inside the same values, so that both sides have the same sharing"""
        for i, o in enumerate(self.objs):
            d = self.map.get(id(o))
            if d is None:
                continue
            if o.sub1 is o.sub2:
                d.sub2 = d.sub1
            for f, kind, mask in self.fields_of(o):
                if mask == "COMPAREONLY" or mask == "NOCOPY":
                    if kind in ("obj", "olist", "odict", "any"):
                        setattr(d, f, None)
                        setattr(o, f, None)
                elif mask == "REFERENCE":
                    pass


def repr_of(v):
    return repr(v) if not hasattr(v, "get_inst_id") else id(v)


def describe(v):
    if hasattr(v, "get_full_name"):
        return f"object {v.get_name()!r}@{v.get_inst_id()}"
    return repr(v)[:80]


DEFAULTS = {"int": lambda: 0, "big": lambda: 0, "str": lambda: "", "float": lambda: 0.0, "obj": lambda: None, "ilist": lambda: [],
            "olist": lambda: [], "dict": lambda: {}, "odict": lambda: {}, "nested": lambda: [], "bytes": lambda: bytearray(), "any": lambda: None}
