"""The oracle is a model of the factory: type overrides as a map with replace/keep, instance overrides as one ordered list per
original type, glob matching by its own matcher, chaining until no override applies. Each creation's product type, name and
parent are compared with the model; the printed override tables must not change by creating or debugging. Not covered: the
order of instance overrides given with a wildcard original type against ones by exact name for types registered afterwards."""
import functools

from vp.monitor import Output

SIM = False
BATCH = 25
CASES = {"quick": 3000, "thorough": 100000}
TECHNIQUE = "runtime monitoring: product of every creation compared online with a reference model of the overrides"
LEVEL_NOTE = "Random override and creation histories on the real factory; exploration, no claim beyond what ran."
RULE = ("histories of 5-40 operations: type and instance overrides by type, by name, through registries and components, with exact "
        "and wildcard paths, replace or keep, late registration, aliases of unregistered names, and creations of objects and "
        "components by all routes; non-trivial: some creation was overridden; distinct: hash of the products")
REQUIRE = {"created": 10000, "overridden": 3000, "chained": 300, "by_instance": 400, "loops": 50, "unknown": 50, "kept": 100,
           "replaced": 100, "alias": 50}
ASSUMPTIONS = []
ONAMES = ["TA", "TAB", "T", "TB", "TBX", "XTA"]
CNAMES = ["KA", "KAB", "K", "KB"]
LATE = {"o": ["LA", "LB"], "c": ["LK"]}
PARTS = ["a", "ab", "b", "a0", "c"]


@functools.lru_cache(None)
def glob(p, s):
    if not p:
        return not s
    if p[0] == "*":
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    return bool(s) and (p[0] == "?" or p[0] == s[0]) and glob(p[1:], s[1:])


def rpath(rng):
    return ".".join(rng.choice(PARTS) for _ in range(rng.randint(1, 4)))


def rpattern(rng):
    p = rpath(rng)
    k = rng.random()
    if k < .4:
        return p
    if k < .5:
        return "*"
    i = rng.randrange(len(p) + 1)
    if k < .75:
        return p[:i] + "*"
    if k < .85:
        return "*" + p[i:]
    if k < .93:
        j = rng.randrange(i, len(p) + 1)
        return p[:i] + "*" + p[j:]
    return p[:max(i - 1, 0)] + "?" + p[max(i - 1, 0) + 1:]


def gen(rng, tier):
    ops = []
    kinds = rng.choice(["o", "o", "c"])
    names = (ONAMES if kinds == "o" else CNAMES)
    names = rng.sample(names, rng.randint(2, len(names)))
    late = LATE[kinds][:rng.choice([0, 0, 1, 2])]
    acyclic = rng.random() < .7
    for _ in range(rng.randint(5, 20 if tier == "quick" else 40)):
        k = rng.random()
        a, b = rng.choice(names + late), rng.choice(names + late)
        if acyclic and a > b:
            a, b = b, a
        if acyclic and a == b and rng.random() < .8:
            continue
        if k < .2:
            ops.append(["type", rng.choice(["type", "name", "reg", "comp", "comp_name"]), a, b, rng.choice([1, 1, 1, 0])])
        elif k < .4:
            if late and rng.random() < .1 or rng.random() < .05:
                a = rng.choice(["T*", "?A*", "*B", "L*", "K*"])
            ops.append(["inst", rng.choice(["type", "name", "reg", "comp", "comp_name"]), a, b, rpattern(rng),
                        rpath(rng) if rng.random() < .5 else ""])
        elif k < .45 and late:
            ops.append(["register", rng.choice(late)])
        elif k < .5:
            ops.append(["alias", rng.choice(["foo", "bar"]), b, rng.choice([1, 1, 0])])
        elif k < .53:
            ops.append(["debug", a, rpath(rng)])
        else:
            ops.append(["create", rng.choice(["type", "name", "name", "reg", "comp"]),
                        a if rng.random() < .93 else rng.choice(["foo", "bar", "nope"]),
                        rpath(rng) if rng.random() < .93 else "", rng.choice(PARTS) if rng.random() < .93 else ""])
    return {"kind": kinds, "ops": ops}


class Model:
    def __init__(self):
        self.reg, self.tov, self.inst, self.named, self.wild = [], {}, {}, {}, []

    def register(self, n):
        self.reg.append(n)
        self.inst[n] = self.named.pop(n, []) + [[p, b] for pat, p, b in self.wild if glob(pat, n)]

    def add_inst(self, a, b, p):
        if b not in self.reg:
            return False
        if a in self.reg:
            self.inst[a].append([p, b])
        elif "*" in a or "?" in a:
            for n in self.reg:
                if glob(a, n):
                    self.inst[n].append([p, b])
            self.wild.append([a, p, b])
        else:
            self.named.setdefault(a, []).append([p, b])
        return True

    def find(self, t, path):
        """(resulting type or None, number of overrides applied, by instance override?, looped?)"""
        seen, n, by_inst = [], 0, False
        while True:
            if t in seen:
                return t, n, by_inst, True
            seen.append(t)
            to = None
            if path:
                for p, b in self.inst.get(t, self.named.get(t, [])):
                    if glob(p, path):
                        to, by_inst = b, True
                        break
            if to is None:
                to = self.tov.get(t)
            if to is None:
                return (t if t in self.reg else None), n, by_inst, False
            n += 1
            if to == t:
                return t, n, by_inst, False
            t = to


def rows(f):
    """the rows of the printed override tables"""
    text = f.convert2string(0)
    return [x.split() for x in text.split("\n") if x.startswith("  ") and not x.startswith(("  Requested", "  No ")) and "---" not in x]


_classes = {}
_serial = [0]


def setup():
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_component import UVMComponent
    from uvm.macros.uvm_object_defines import uvm_object_utils, uvm_component_utils

    def make(n, base, util):
        if base is UVMObject:
            def init(self, name=""):
                UVMObject.__init__(self, name)
        else:
            def init(self, name, parent):
                UVMComponent.__init__(self, name, parent)
        _classes[n] = util(type(n, (base,), {"__init__": init}))
    with Output():
        for n in ONAMES + LATE["o"]:
            make(n, UVMObject, uvm_object_utils)
        for n in CNAMES + LATE["c"]:
            make(n, UVMComponent, uvm_component_utils)


def run(case, mon):
    from uvm.base.uvm_factory import UVMDefaultFactory
    from uvm.base.uvm_coreservice import UVMCoreService
    from uvm.base.uvm_component import UVMComponent
    cs = UVMCoreService.get()
    f = UVMDefaultFactory()
    cs.set_factory(f)
    m = Model()
    comp = case["kind"] == "c"
    late = LATE[case["kind"]]
    w = {n: _classes[n].get_type() for n in (CNAMES if comp else ONAMES) + late}
    comps = {}
    _serial[0] += 1
    tag = f"s{_serial[0]}_"

    def at(path):
        """the component with that full name, with the case's prefix on the top part"""
        if not path:
            return None
        if path not in comps:
            head, _, leaf = path.rpartition(".")
            comps[path] = UVMComponent(leaf if head else tag + leaf, at(head))
        return comps[path]

    def full(path):
        return tag + path if path else ""

    def pat(p):
        return p if p.startswith("*") else tag + p
    names_used = {}
    overridden = False
    out = Output()
    with out:
        for n in w:
            if n not in late:
                f.register(w[n])
                m.register(n)
        for op in case["ops"]:
            out.take()
            kind = op[0]
            if kind == "register":
                if op[1] not in m.reg:
                    f.register(w[op[1]])
                    m.register(op[1])
                continue
            if kind == "alias":
                _, a, b, rep = op
                f.set_type_override_by_name(a, b, rep)
                if b in m.reg and (rep or a not in m.tov):
                    m.tov[a] = b
                mon.equal([r[1] for r in out.reports() if r[0] == "UVM_ERROR"], [] if b in m.reg else ["TYPNTF"], "alias-report")
                continue
            if kind == "type":
                _, how, a, b, rep = op
                by_name = "name" in how
                if by_name and a == b:
                    f.set_type_override_by_name(a, b, rep)
                    mon.equal([r[1] for r in out.reports()][-1:], ["TYPDUP"] if b in m.reg else ["TYPNTF"], "dup-report", str(op))
                    continue
                if how == "type":
                    f.set_type_override_by_type(w[a], w[b], bool(rep))
                elif how == "reg":
                    _classes[a].type_id.set_type_override(w[b], bool(rep))
                elif how == "comp":
                    UVMComponent.set_type_override_by_type(w[a], w[b], bool(rep))
                elif how == "name":
                    f.set_type_override_by_name(a, b, bool(rep))
                else:
                    UVMComponent.set_type_override(a, b, bool(rep))
                errs = [r[1] for r in out.reports() if r[0] == "UVM_ERROR"]
                if by_name:
                    mon.equal(errs, [] if b in m.reg else ["TYPNTF"], "override-report", str(op))
                    if b not in m.reg:
                        continue
                else:
                    for n in (a, b):
                        if n not in m.reg:
                            m.register(n)
                    mon.equal(errs, [], "override-report", str(op))
                if a in m.tov:
                    mon.count("replaced" if rep else "kept")
                if rep or a not in m.tov:
                    m.tov[a] = b
                continue
            if kind == "inst":
                _, how, a, b, p, parent = op
                by_name = "name" in how or "*" in a
                full_p = pat(p)
                if how in ("reg", "comp", "comp_name") and parent and "*" not in a:
                    c = at(parent)
                    full_p = c.get_full_name() + "." + p
                    if how == "reg":
                        _classes[a].type_id.set_inst_override(w[b], p, c)
                    elif how == "comp":
                        c.set_inst_override_by_type(p, w[a], w[b])
                    else:
                        c.set_inst_override(p, a, b)
                elif by_name:
                    f.set_inst_override_by_name(a, b, full_p)
                elif how == "reg":
                    _classes[a].type_id.set_inst_override(w[b], full_p)
                else:
                    f.set_inst_override_by_type(w[a], w[b], full_p)
                errs = [r[1] for r in out.reports() if r[0] == "UVM_ERROR"]
                if not by_name:
                    for n in (a, b):
                        if n not in m.reg:
                            m.register(n)
                ok = m.add_inst(a, b, full_p)
                mon.equal(errs, [] if ok else ["TYPNTF"], "override-report", str(op))
                continue
            before = rows(f)
            if kind == "debug":
                if op[1] in m.reg:
                    f.debug_create_by_type(w[op[1]], full(op[2]))
                    f.debug_create_by_name(op[1], full(op[2]))
                    text = out.take()[1]
                    t, _, _, loop = m.find(op[1], full(op[2]))
                    if not loop:
                        mon.equal(text.count(f"will produce an object of type '{t}'"), 2, "debug-result", f"{op} expected {t}: {text}")
                mon.equal(rows(f), before, "tables-changed", "debug_create changed the registered overrides")
                continue
            _, how, a, parent, name = op
            if comp:
                if not name:
                    continue
                names_used[name] = names_used.get(name, 0) + 1
                name = name + "_" * names_used[name]
                path = full(parent) + ("." if parent else tag[:0]) + name if parent else tag + name
                name = name if parent else tag + name
            else:
                path = ".".join(x for x in (full(parent), name) if x)
            unknown_type = a not in w
            if not unknown_type and a not in m.reg and how in ("type", "reg"):
                f.register(w[a])
                m.register(a)
                before = rows(f)
            if how in ("type", "reg") and unknown_type:
                how = "name"
            c = at(parent) if comp or how == "comp" or how == "reg" else None
            if how == "comp" and c is None:
                how = "name"
            out.take()
            if comp:
                if how == "type":
                    obj = f.create_component_by_type(w[a], full(parent), name, c)
                elif how == "name":
                    obj = f.create_component_by_name(a, full(parent), name, c)
                elif how == "reg":
                    obj = _classes[a].type_id.create(name, c)
                else:
                    obj = c.create_component(a, name)
            else:
                if how == "type":
                    obj = f.create_object_by_type(w[a], full(parent), name)
                elif how == "name":
                    obj = f.create_object_by_name(a, full(parent), name)
                elif how == "reg":
                    obj = _classes[a].type_id.create(name, c) if c else _classes[a].type_id.create(name, None, full(parent))
                else:
                    obj = c.create_object(a, name)
            reps = out.reports()
            t, n, by_inst, loop = m.find(a, path)
            mon.event("create", how, a, path[len(tag):], type(obj).__name__, n)
            mon.count("created")
            errs = [r[1] for r in reps if r[0] in ("UVM_ERROR", "UVM_FATAL")]
            if loop:
                mon.count("loops")
                mon.check("OVRDLOOP" in errs, "loop-report", f"{op}: an override loop was not reported")
            else:
                mon.equal(type(obj).__name__ if obj is not None else None, t, "product", f"{op} at {path!r}, overrides:\n{before}")
                mon.equal(errs, [], "create-report", str(op))
                mon.equal([r[1] for r in reps if r[0] == "UVM_WARNING"], ["BDTYP"] if t is None else [], "create-warning", str(op))
                if t is None:
                    mon.count("unknown")
                if n:
                    overridden = True
                    mon.count("overridden")
                    mon.count("by_instance", by_inst)
                    mon.count("chained", n > 1)
                    mon.count("alias", a in ("foo", "bar"))
            if obj is not None:
                mon.equal(obj.get_name(), name, "product-name", str(op))
                if comp:
                    mon.equal(obj.get_full_name(), path, "product-path", str(op))
            mon.equal(rows(f), before, "tables-changed", "creation changed the registered overrides")
    mon.nontrivial = overridden
