"""The oracle keeps its own image of every object (the declared fields of its classes with their kinds, flags and values) and,
for each set, walks the fields it reaches by name with its own matcher; afterwards every field of every object is compared and
the warnings are matched. A set that would give a field a value of another kind, or whose effect depends on the order in which
the fields are visited, is not made. Not covered: containers as fields, sets of None."""
import re

from vp.monitor import Output
from vp.uvmrun import glob

SIM = False
BATCH = 40
CASES = {"quick": 6000, "thorough": 50000}
TECHNIQUE = "runtime monitoring: all fields of all objects compared online with a reference model after every set by name"
LEVEL_NOTE = "Random classes, object graphs (with cycles) and patterns on the real code; exploration, no claim beyond what ran."
RULE = ("2-5 classes derived from each other with 1-4 declared fields each, 2-7 objects referring to each other (also in circles), "
        "of them some components; 4-16 sets of integers, strings and objects by path or pattern, or configurations of a component, "
        "with copies, comparisons and prints in between; non-trivial: a set reached a field of a nested object; distinct: hash "
        "of the sets and their results")
REQUIRE = {"sets": 12000, "set_int": 2500, "set_str": 2500, "set_obj": 2500, "nested": 3000, "several": 700, "readonly": 800, "none_matched": 1500,
           "cycles": 500, "clones": 400, "configured": 1500, "configured_nested": 500, "config_ignored": 300}
ASSUMPTIONS = ["configuration values follow the precedence of property C16"]
NAMES = ["a", "b", "ab", "x", "cfg", "sub", "a_b"]
KINDS = ["int", "str", "obj"]
_n = [0]


def gen(rng, tier):
    nclass = rng.randint(2, 5)
    classes = []
    weights = rng.choice([(3, 2, 3), (4, 0, 3), (0, 4, 3), (1, 1, 4), (0, 0, 1)])
    for i in range(nclass):
        base = rng.choice([None, None] + list(range(i)))
        free = list(NAMES)
        b = base
        while b is not None:
            free = [n for n in free if n not in [f[0] for f in classes[b]["fields"]]]
            b = classes[b]["base"]
        rng.shuffle(free)
        classes.append({"base": base, "fields": [[n, rng.choices(KINDS, weights)[0],
                                                  rng.choice(["", "", "", "", "", "readonly", "reference", "nocopy"])]
                                                 for n in free[:rng.randint(1, 4)]]})
    comp = rng.random() < .5
    objs = [rng.randrange(nclass) for _ in range(rng.randint(2, 7))]
    links = [[rng.randrange(-1, len(objs)) for _ in range(10)] for _ in objs]
    ops = []
    for _ in range(rng.randint(4, 16)):
        k = rng.random()
        if k < .12:
            ops.append(["noise", rng.choice(["print", "copy", "compare", "clone"]), rng.randrange(9), rng.randrange(9)])
        elif k < .27 and comp:
            ops.append(["config", rng.randrange(9), [[rng.randrange(1000), rng.choice(KINDS), rng.randrange(100), rng.random() < .12,
                                                      rng.random() < .3] for _ in range(rng.randint(1, 6))]])
        else:
            ops.append(["set", rng.randrange(9), rng.choice(KINDS), rng.randrange(1000), rng.choice(
                ["exact", "exact", "exact", "exact", "?", "seg", "head", "tail", "regex", "wrong", "star"]), rng.randrange(100),
                rng.random() < .4])
    return {"classes": classes, "comp": comp, "equal": rng.random() < .2, "objs": objs, "links": links, "ops": ops}


class Skip(Exception):
    pass


class Stop(Exception):
    pass


def run(case, mon):
    try:
        follow(case, mon)
    except Stop:
        pass                  # a violation was reported; what follows is of no use


def follow(case, mon):
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_object import UVMObject
    from uvm.base.uvm_object_globals import UVM_DEFAULT, UVM_NOCOPY, UVM_READONLY, UVM_REFERENCE
    from uvm.macros import uvm_object_defines as d
    _n[0] += 1
    flags = {"": UVM_DEFAULT, "readonly": UVM_DEFAULT | UVM_READONLY, "reference": UVM_DEFAULT | UVM_REFERENCE,
             "nocopy": UVM_DEFAULT | UVM_NOCOPY}
    classes, fields = {}, {}

    def make(i, component):
        if (i, component) in classes:
            return classes[i, component]
        c = case["classes"][i]
        base = make(c["base"], component) if c["base"] is not None else UVMComponent if component else UVMObject

        def init(self, name="", parent=None):
            if component:
                base.__init__(self, name, parent)
            else:
                base.__init__(self, name)
            for n, k, _ in c["fields"]:
                setattr(self, n, {"int": -1, "str": "", "obj": None}[k])
        members = {"__eq__": lambda self, other: type(self) is type(other), "__hash__": object.__hash__} if case["equal"] else {}
        T = type(f"VpC44_{_n[0]}_{i}{'c' if component else ''}", (base,), {"__init__": init, **members})
        (d.uvm_component_utils_begin if component else d.uvm_object_utils_begin)(T)
        for n, k, fl in c["fields"]:
            {"int": d.uvm_field_int, "str": d.uvm_field_string, "obj": d.uvm_field_object}[k](n, flags[fl])
        (d.uvm_component_utils_end if component else d.uvm_object_utils_end)(T)
        classes[i, component] = T
        fields[T] = fields.get(base, []) + [tuple(f) for f in c["fields"]]
        return T

    objs = []
    for i, k in enumerate(case["objs"]):
        component = case["comp"] and i % 2 == 0
        T = make(k, component)
        objs.append(T(f"vpc44_{_n[0]}_{i}", None) if component else T(f"o{i}"))
    comps = [o for o in objs if isinstance(o, UVMComponent)]
    plain = [o for o in objs if not isinstance(o, UVMComponent)]
    image = {}

    def learn(o):
        """takes an object just made over into the image, as it is"""
        if o is None or any(o is k for k in image):
            return
        image[o] = {n: getattr(o, n) for n, _, _ in fields[type(o)]}
        for n, k, _ in fields[type(o)]:
            if k == "obj":
                learn(image[o][n])
    for i, o in enumerate(objs):
        for j, (n, k, _) in enumerate(fields[type(o)]):
            link = case["links"][i][j % 10]
            if k == "obj" and link >= 0 and plain:
                setattr(o, n, plain[link % len(plain)])
    for o in objs:
        learn(o)

    def match(pattern, path):
        if len(pattern) > 1 and pattern[0] == pattern[-1] == "/":
            return re.search(pattern[1:-1], path) is not None
        return glob(pattern, path)

    def reach(root, kind, pattern, value, order):
        """the assignments and refusals of one set, on a copy of the image"""
        now = {o: dict(v) for o, v in image.items()}
        sets, refused, depth = [], [], [0]

        def walk(o, stack, scope):
            if any(o is s for s in stack):
                mon.count("cycles")
                return
            if len(stack) > 60:
                raise Skip
            for n, k, fl in order(fields[type(o)]):
                depth[0] += 1
                if depth[0] > 3000:
                    raise Skip
                path = scope + n
                if match(pattern, path):
                    if k != kind:
                        raise Skip
                    if fl == "readonly":
                        refused.append(path)
                    else:
                        now[o][n] = value
                        sets.append((o, n, path))
                    continue
                sub = now[o][n]
                if k != "obj" or sub is None or fl == "readonly":
                    continue
                if sub == "clone":
                    raise Skip
                if kind == "obj" and not any(c in pattern for c in ".*") or kind != "obj" and fl == "reference":
                    continue
                walk(sub, stack + [o], path + ".")
        walk(root, [], "")
        return now, sets, refused

    def same(a, b):
        return all(a[o][n] is b[o][n] or not isinstance(a[o][n], UVMObject) and a[o][n] == b[o][n] for o in a for n in a[o])

    def both(root, kind, pattern, value):
        fwd = reach(root, kind, pattern, value, lambda f: f)
        bwd = reach(root, kind, pattern, value, lambda f: f[::-1])
        if not same(fwd[0], bwd[0]) or sorted(fwd[2]) != sorted(bwd[2]):
            raise Skip
        return fwd

    def paths(root, kind):
        res = []

        def walk(o, stack, scope):
            for n, k, fl in fields[type(o)]:
                if k == kind:
                    res.append(scope + n)
                if k == "obj" and image[o][n] is not None and len(stack) < 3 and all(image[o][n] is not s for s in stack) and len(res) < 60:
                    walk(image[o][n], stack + [o], scope + n + ".")
        walk(root, [], "")
        return res

    def value_of(kind, v):
        return v if kind == "int" else f"s{v}" if kind == "str" else plain[v % len(plain)] if plain else None

    def verify(key, text):
        for o, im in image.items():
            for n in im:
                got = getattr(o, n)
                if not (got is im[n] if isinstance(im[n], (UVMObject, type(None))) else type(got) is type(im[n]) and got == im[n]):
                    mon.violate(f"{key}: field {n} of {o.get_name()} is {got!r:.80}, expected {im[n]!r:.80}; " + text, key)
                    raise Stop

    def check_reports(out, refused, text):
        rep = [r for r in out.reports() if r[0] != "UVM_INFO"]
        warn = sorted(m.group(1) for r in rep if r[1] == "RDONLY" for m in [re.search(r"argument match (\S*) is", r[2])] if m)
        mon.equal(warn, sorted(refused), "readonly-warnings", "one warning for each read-only field; " + text)
        other = [r[2] for r in rep if r[1] != "RDONLY"]
        mon.check(not other, "reports", f"reports {other!s:.300}; {text}")

    for op in case["ops"]:
        if op[0] == "noise":
            o = objs[op[2] % len(objs)]
            p = plain[op[3] % len(plain)] if plain else None
            with Output():
                if op[1] == "print":
                    o.sprint()
                elif op[1] == "compare" and p is not None:
                    p.compare(plain[op[2] % len(plain)])
                elif op[1] == "clone" and p is not None:
                    p.clone()
                elif op[1] == "copy" and p is not None:
                    type(p)("x").copy(p)
            verify("noise", op[1])
            continue
        if op[0] == "set":
            root = objs[op[1] % len(objs)]
            kind = op[2]
            ps = paths(root, kind)
            if not ps:
                continue
            p = ps[op[3] % len(ps)]
            segs = p.split(".")
            i = op[3] % len(segs)
            pattern = {"exact": p, "?": p[:op[5] % len(p)] + "?" + p[op[5] % len(p) + 1:],
                       "seg": ".".join(segs[:i] + ["*"] + segs[i + 1:]), "head": "*" + p[op[5] % len(p):],
                       "tail": p[:1 + op[5] % len(p)] + "*", "regex": "/^" + re.escape(p) + "$/", "wrong": p + "x", "star": "*." + segs[-1]}[op[4]]
            value = value_of(kind, op[5])
            clone = op[6]
            if value is None:
                continue
            try:
                now, sets, refused = both(root, kind, pattern, "clone" if kind == "obj" and clone else value)
            except Skip:
                mon.count("skipped")
                continue
            text = f"set_{kind} of {pattern!r} at {root.get_name()} ({sets!s:.200} expected)"
            with Output() as out:
                if kind == "int":
                    root.set_int_local(pattern, value)
                elif kind == "str":
                    root.set_string_local(pattern, value)
                elif clone:
                    root.set_object_local(pattern, value)
                else:
                    root.set_object_local(pattern, value, 0)
            mon.count("sets")
            mon.count("set_" + kind)
            mon.count("readonly", len(refused))
            mon.count("none_matched", not sets and not refused)
            mon.count("several", len(sets) > 1)
            if any("." in s[2] for s in sets):
                mon.count("nested")
                mon.nontrivial = True
            mon.event("set", kind, pattern, len(sets), len(refused))
            if kind == "obj" and clone and sets:
                o, n, path = sets[0]
                got = getattr(o, n)
                if mon.check(type(got) is type(value) and all(got is not k for k in image), "clone", f"a new object of the type of the value is set at {path}; {text}"):
                    mon.count("clones")
                    for o, n, path in sets:
                        now[o][n] = got
                    image.update(now)
                    learn(got)
            else:
                image.update(now)
            verify("set-" + kind, text)
            check_reports(out, refused, text)
            continue
        if not comps:
            continue
        comp = comps.pop()                # the configuration database keeps its settings, so each one is configured once
        chosen = {}
        plan = []
        ignored = 0
        for pick, kind, v, odd, over in op[2]:
            ps = paths(comp, kind)
            if not ps:
                continue
            name = ps[pick % len(ps)]
            if any(name != c and (name.startswith(c + ".") or c.startswith(name + ".")) for c in chosen):
                continue
            value = value_of(kind, v)
            if value is None:
                continue
            if odd:
                value = [1.5, [v], type(comp).get_type()][v % 3]
                ignored += 1
            plan.append((name, value))
            if over:
                plan.append((name, value_of(kind, v + 1)))
                odd, value = False, value_of(kind, v + 1)
            chosen[name] = None if odd else (kind, value)
        keep = {o: dict(v) for o, v in image.items()}
        results = []
        refused = []
        try:
            for direction in (1, -1):
                image.update({o: dict(v) for o, v in keep.items()})
                refused = []
                for name, c in list(chosen.items())[::direction]:
                    kinds = {k for n, k, _ in fields[type(comp)] if n == name}
                    if c and kinds and kinds != {c[0]}:
                        raise Skip
                    if c:
                        now, sets, ref = both(comp, c[0], name, c[1])
                        image.update(now)
                        refused += ref
                        mon.count("configured", len(sets))
                        mon.count("configured_nested", sum("." in s[2] for s in sets))
                results.append(({o: dict(v) for o, v in image.items()}, sorted(refused)))
            if results[0][1] != results[1][1] or not same(results[0][0], results[1][0]):
                raise Skip
        except Skip:
            image.update(keep)
            mon.count("skipped")
            continue
        # lower values that the later one replaces may come and go, and may be refused each time
        for name, value in plan:
            UVMConfigDb.set(None, comp.get_full_name(), name, value)
        with Output() as out:
            comp.apply_config_settings()
        text = f"configuration of {comp.get_name()} with {plan!s:.300}"
        mon.event("config", str([n for n, _ in plan]))
        mon.count("config_ignored", ignored)
        mon.nontrivial = True
        verify("config", text)
        check_reports(out, refused, text)
