"""C20: what sprint prints against a reference list of rows built by walking the objects.

Each case builds classes (inheritance, print flags, radices, do_print with print_field/string/real/time/array
calls), a random graph of objects or a component tree, and prints it with the base printer (rows), the table,
tree and line printers under random knobs. The reference walk gives every row: level, name, type, size, value.
Tables are read back by the columns of their header, trees by lines and indentation.
Not covered: fields whose value is a list, dict or float (printing them through the macros is not implemented and raises)."""
import itertools
import re

from vp.monitor import Output

SIM = False
BATCH = 50
CASES = {"quick": 6000, "thorough": 100000}
TECHNIQUE = "runtime monitoring: printed output of random objects under random knobs read back and checked against a reference list of rows"
LEVEL_NOTE = "Random class definitions, object graphs, component trees and knobs on the real printers; exploration, no claim beyond what ran."
RULE = ("1-5 classes with 0-5 registered fields each, 1-8 objects linked at random or a component tree, 2-4 printers; non-trivial: at "
        "least 4 rows; distinct: hash of the rows printed")
REQUIRE = {"rows": 40000, "int_rows": 9000, "wide_values": 1500, "negative_values": 1500, "nested_rows": 10000, "cycles_cut": 400,
           "depth_cut": 300, "array_rows": 1500, "component_rows": 1500, "hidden_fields": 1500, "tables": 1500, "trees": 1500, "lines": 1500,
           "long_names": 100, "print_disabled": 100}
ASSUMPTIONS = []
_ids = itertools.count()

KINDS = ["int", "int", "int", "str", "obj", "obj", "enum", "bool"]
FLAGS = ["ALL", "ALL", "ALL", "ALL", "DEFAULT", "NOPRINT", "NOTON", "REFERENCE"]
RADIX = ["NORADIX", "BIN", "OCT", "DEC", "HEX", "UNSIGNED", "TIME"]
HAND = ["field", "field_int", "string", "real", "time", "generic", "array", "array2", "null", "object", "objarray"]


def gen(rng, tier):
    ncls = rng.randint(1, 3 if tier == "quick" else 5)
    classes = []
    for i in range(ncls):
        fields = []
        for k in range(rng.randint(0 if i else 1, 4 if tier == "quick" else 5)):
            kind = rng.choice(KINDS)
            flag = rng.choice(FLAGS)
            if flag == "REFERENCE" and kind != "obj":
                flag = "ALL"
            name = f"f{i}_{k}" + ("x" * rng.randint(90, 140) if rng.random() < .02 else "")
            fields.append([name, kind, flag, rng.choice(RADIX)])
        classes.append({"base": rng.randint(0, i - 1) if i and rng.random() < 0.5 else None, "fields": fields,
                        "hand": [rng.choice(HAND) for _ in range(rng.randint(0, 3))] if rng.random() < .5 else []})
    nobj = rng.randint(1, 6 if tier == "quick" else 9)
    comps = None
    if rng.random() < .3:
        from vp.uvmrun import random_tree
        comps = [[p, n, rng.random() < .85] for p, n in random_tree(rng, 7, ["a", "b", "c[0]", "c[1]", "drv"])]
    prints = []
    for _ in range(rng.randint(2, 4)):
        k = {"printer": rng.choice(["rows", "table", "tree", "line"])}
        for knob, vals in KNOBS.items():
            if rng.random() < .25:
                k[knob] = rng.choice(vals)
        prints.append(k)
    return {"classes": classes, "objs": [rng.randint(0, ncls - 1) for _ in range(nobj)], "cyclic": rng.random() < .5, "comps": comps,
            "prints": prints, "seed": rng.randint(0, 1 << 30), "name": rng.choice(["top", "t", "a_long_name", "agent[3]", ""])}


KNOBS = {"depth": [-1, 0, 1, 2, 3], "reference": [True, False, 0, 1], "full_name": [True, False, 1], "header": [True, False, 0, 1],
         "footer": [True, False], "identifier": [True, False], "type_name": [True, False, 1], "size": [True, False, 1],
         "indent": [0, 1, 2, 3, 4], "show_root": [True, False, 1], "show_radix": [True, False], "prefix": ["", "# ", ">>"],
         "default_radix": ["BIN", "OCT", "DEC", "HEX", "UNSIGNED"], "separator": ["{}", "<>", "[", ""],
         "hex_radix": ["0x", "'h"], "bin_radix": ["0b", "'b"], "dec_radix": ["#", "'d"], "oct_radix": ["0o"], "unsigned_radix": ["u"]}


def setup():
    import uvm  # noqa


def run(case, mon):
    import random
    from uvm.base.uvm_object import UVMObject
    with Output() as out:
        try:
            Case(case, mon, random.Random(case["seed"]), out).go()
        finally:
            UVMObject._m_uvm_status_container.cycle_check.clear()
    mon.nontrivial = mon.counters.get("rows", 0) >= 4


class Row:
    def __init__(self, level, name, full, typ, size, val):
        self.level, self.name, self.full, self.typ, self.size, self.val = level, name, full, typ, size, val

    def __repr__(self):
        return f"{self.level}:{self.name}|{self.typ}|{self.size}|{self.val}"


class Case:
    def __init__(self, case, mon, rng, out):
        self.case, self.mon, self.rng, self.out = case, mon, rng, out

    # ---- building ------------------------------------------------------------------------------
    def build(self):
        from uvm.base.uvm_object import UVMObject
        from uvm.base.uvm_component import UVMComponent
        import uvm.base.uvm_object_globals as g
        import uvm.macros.uvm_object_defines as d
        self.g = g
        flags = {"DEFAULT": g.UVM_DEFAULT, "ALL": g.UVM_ALL_ON, "NOPRINT": g.UVM_ALL_ON | g.UVM_NOPRINT, "NOTON": g.UVM_COPY | g.UVM_COMPARE,
                 "REFERENCE": g.UVM_ALL_ON | g.UVM_REFERENCE}
        comp = self.case["comps"] is not None
        self.classes, self.fields, self.hands = [], [], []
        uid = next(_ids)
        for n, c in enumerate(self.case["classes"] + ([{"base": None, "comp": True, "hand": [], "fields": self.case["classes"][0]["fields"]}] if comp else [])):
            is_comp = c.get("comp", False)
            base = (UVMComponent if is_comp else UVMObject) if c["base"] is None else self.classes[c["base"]]
            T = self.make_class(f"VpC20_{'c' if is_comp else 'o'}{n}", base, c["fields"], c["hand"], is_comp)
            (d.uvm_component_utils_begin if is_comp else d.uvm_object_utils_begin)(T)
            for name, kind, flag, radix in c["fields"]:
                {"str": d.uvm_field_string, "obj": d.uvm_field_object}.get(kind, d.uvm_field_int)(name, flags[flag] | getattr(g, "UVM_" + radix))
            (d.uvm_component_utils_end if is_comp else d.uvm_object_utils_end)(T)
            self.classes.append(T)
            inh = ([], []) if c["base"] is None else (self.fields[c["base"]], self.hands[c["base"]])
            self.fields.append(inh[0] + c["fields"])
            self.hands.append(inh[1] + [(n, i, h) for i, h in enumerate(c["hand"])])
        objs = [self.classes[k](self.case["name"] if i == 0 else "o%d" % i) for i, k in enumerate(self.case["objs"])]
        comps = []
        if comp:
            T = self.classes[-1]
            comps = [T(f"top{uid}", None)]
            for p, name, en in self.case["comps"]:
                comps.append(T(name, comps[p]))
                comps[-1].print_enabled = en
        self.kids = {id(o): [] for o in comps}
        for (p, name, en), o in zip(self.case["comps"] or [], comps[1:]):
            self.kids[id(comps[p])].append(o)
        self.objs, self.comps = objs, comps
        for i, o in enumerate(objs + comps):
            o.vp_vals = {}
            targets = objs if self.case["cyclic"] or o in comps else objs[i + 1:]
            for name, kind, _, _ in self.fields_of(o):
                setattr(o, name, self.value(kind, targets))
            for n, i, h in self.hands_of(o):
                o.vp_vals[n, i] = self.hand_value(h, targets)

    def make_class(self, name, base, own, hand, is_comp):
        def __init__(self, name="", parent=None):
            if is_comp:
                base.__init__(self, name, parent)
            else:
                base.__init__(self, name)
            for f, kind, _, _ in own:
                setattr(self, f, None)
        n = int(name.split("_")[1][1:])
        case = self

        def do_print(self, printer):
            base.do_print(self, printer)
            for i, h in enumerate(hand):
                case.hand_print(printer, f"h{n}_{i}", h, self.vp_vals[n, i])
        members = {"__init__": __init__, "do_print": do_print}
        return type(name, (base,), members)

    def fields_of(self, o):
        return self.fields[self.classes.index(type(o))]

    def hands_of(self, o):
        return self.hands[self.classes.index(type(o))]

    def value(self, kind, targets):
        rng = self.rng
        if kind == "int":
            v = rng.choice([0, 1, -1, rng.randint(-1 << 31, 1 << 31), rng.randint(0, 255), -rng.randint(0, 255), 1 << 31, 1 << 63, -(1 << 40),
                            rng.getrandbits(rng.choice([33, 64, 65, 130])), (1 << 32) - 1])
        elif kind == "enum":
            import enum
            v = enum.IntEnum("VpEnum", {"A": 3, "B": 7})(rng.choice([3, 7]))
        elif kind == "bool":
            v = rng.random() < .5
        elif kind == "str":
            v = rng.choice(["", " ", "a", "some text", "x.y", "'h10", "%s %0d", "{}", "é", "z" * 130 if rng.random() < .1 else "zz"])
        else:
            v = rng.choice(targets + [None])
        return v if rng.random() < .95 else None

    def hand_value(self, h, targets):
        rng = self.rng
        if h in ("field", "field_int"):
            size = rng.choice([1, 7, 8, 32, 64, 100])
            v = rng.getrandbits(size) if rng.random() < .7 else -rng.getrandbits(size - 1)
            return [v, size, rng.choice(RADIX[:-1])]
        if h == "array":
            return [[rng.getrandbits(8) for _ in range(rng.randint(0, 4))], None, None]
        if h == "array2":
            return [[[rng.getrandbits(8) for _ in range(rng.randint(0, 2))] for _ in range(rng.randint(0, 3))], None, None]
        if h == "objarray":
            return [[rng.choice(targets + [None]) for _ in range(rng.randint(0, 3))], None, None]
        if h == "object":
            return rng.choice(targets + [None])
        return {"string": rng.choice(["", "   ", "text", "two words"]), "real": rng.choice([0.0, -1.5, 1e20]), "time": rng.getrandbits(40),
                "generic": [rng.choice(["val", 7, ""]), rng.choice([12, 12, 0, 99999, 1234567])], "null": None}[h]

    def hand_print(self, printer, name, h, v):
        radix = (lambda r: getattr(self.g, "UVM_" + r))
        if h == "field":
            printer.print_field(name, v[0], v[1], radix(v[2]))
        elif h == "field_int":
            printer.print_field_int(name, v[0], v[1], radix(v[2]))
        elif h == "string":
            printer.print_string(name, v)
        elif h == "real":
            printer.print_real(name, v)
        elif h == "time":
            printer.print_time(name, v)
        elif h == "generic":
            printer.print_generic(name, "my_type", v[1], v[0])
        elif h in ("null", "object"):
            printer.print_object(name, v)
        elif h in ("array", "objarray", "array2"):
            printer.print_array_header(name, len(v[0]), "da(%s)" % h)
            for i, e in enumerate(v[0]):
                n = f"[{i}]" if i % 2 else printer.index_string(i)
                if h == "array":
                    printer.print_field(n, e, 8)
                elif h == "objarray":
                    printer.print_object(n, e)
                else:
                    printer.print_array_header(n, len(e), "da(int)")
                    for k, x in enumerate(e):
                        printer.print_field(f"[{k}]", x, 8)
                    printer.print_array_footer(len(e))
            printer.print_array_footer(len(v[0]))

    # ---- reference walk --------------------------------------------------------------------------
    def rows(self, o, kn):
        self.kn, self.res, self.path, self.busy = kn, [], [], set()
        self.obj(o.get_name(), o)
        return self.res

    def add(self, name, typ, size, val):
        full = ""
        for p in self.path:
            full += p if p.startswith("[") or not full else "." + p
        full += ("." if full else "") + name
        self.res.append(Row(len(self.path), name, full, typ, size, val))

    def obj(self, name, o, descend=True):
        kn = self.kn
        val = ("<null>" if o is None else "@%d" % o.get_inst_id()) if kn["reference"] else "-"
        shown = name or "<unnamed>"
        self.add(shown, "object" if o is None else o.get_type_name(), "-", val)
        if len(self.path) == 0 and kn["show_root"]:
            self.res[-1].name = o.get_full_name()
            self.res[-1].full = o.get_full_name()
        if o is None or not descend:
            return
        if kn["depth"] != -1 and len(self.path) >= kn["depth"]:
            self.mon.count("depth_cut")
            return
        if id(o) in self.busy:
            self.mon.count("cycles_cut")
            return
        self.busy.add(id(o))
        self.path.append(name)
        for k in self.kids.get(id(o), []):
            if k.print_enabled:
                self.obj(k.get_name(), k)
                self.mon.count("component_rows")
            else:
                self.mon.count("print_disabled")
        for f, kind, flag, radix in self.fields_of(o):
            v = getattr(o, f)
            if flag in ("NOPRINT", "NOTON") or v is None:
                self.mon.count("hidden_fields")
                continue
            if len(f) > 80:
                self.mon.count("long_names")
            if isinstance(v, int):
                size = max(32, v.bit_length() + (v < 0))
                self.mon.count("int_rows")
                self.mon.count("wide_values", size > 32)
                self.mon.count("negative_values", v < 0)
                self.integral(f, v, size, radix)
            elif isinstance(v, str):
                self.add(f, "string", str(len(v)), v or '""')
            else:
                self.obj(f, v, flag != "REFERENCE")
        for n, i, h in self.hands_of(o):
            self.hand(f"h{n}_{i}", h, o.vp_vals[n, i])
        self.path.pop()
        self.busy.discard(id(o))

    def integral(self, name, v, size, radix):
        typ = "time" if radix == "TIME" else "integral"
        if radix == "NORADIX":
            radix = self.kn["default_radix"]
        rad = self.kn.get(radix.lower() + "_radix", "") if self.kn["show_radix"] else ""
        v = int(v)
        m = v & ((1 << size) - 1)
        if radix == "DEC":
            if v < 0:
                val = str(v)
            else:
                val = (rad + str(v), str(v)) if v >> (size - 1) else rad + str(v)
        else:
            val = rad + {"BIN": "{:b}", "OCT": "{:o}", "HEX": "{:x}"}.get(radix, "{}").format(int(m))
            if radix == "HEX":
                val = (val, rad + "{:X}".format(m))
        self.add(name, typ, str(size), val)

    def hand(self, name, h, v):
        if h in ("field", "field_int"):
            self.integral(name, v[0], v[1], v[2])
        elif h == "string":
            self.add(name, "string", str(len(v)), v or '""')
        elif h == "real":
            self.add(name, "real", "64", str(v))
        elif h == "time":
            self.integral(name, v, 64, "TIME")
        elif h == "generic":
            self.add(name, "my_type", str(v[1]), '""' if v[0] == "" else str(v[0]))
        elif h in ("null", "object"):
            self.obj(name, v)
        else:
            self.mon.count("array_rows", 1 + len(v[0]))
            self.add(name, "da(%s)" % h, str(len(v[0])), "-")
            self.path.append(name)
            for i, e in enumerate(v[0]):
                if h == "array":
                    self.integral(f"[{i}]", e, 8, "NORADIX")
                elif h == "objarray":
                    self.obj(f"[{i}]", e)
                else:
                    self.add(f"[{i}]", "da(int)", str(len(e)), "-")
                    self.path.append(f"[{i}]")
                    for k, x in enumerate(e):
                        self.integral(f"[{k}]", x, 8, "NORADIX")
                    self.path.pop()
            self.path.pop()

    # ---- printing ---------------------------------------------------------------------------------
    def go(self):
        from uvm.base import uvm_printer as up
        mon = self.mon
        self.build()
        roots = [self.objs[0]] + ([self.comps[0], self.rng.choice(self.comps)] if self.comps else [])

        class Rows(up.UVMPrinter):
            def emit(self):
                self.vp_rows, self.m_rows = self.m_rows, []
                return "rows"
        for pr in self.case["prints"]:
            kind = pr["printer"]
            P = {"rows": Rows, "table": up.UVMTablePrinter, "tree": up.UVMTreePrinter, "line": up.UVMLinePrinter}[kind]
            p = P()
            for k, v in pr.items():
                if k == "default_radix":
                    p.knobs.default_radix = getattr(self.g, "UVM_" + v)
                elif k != "printer" and not (kind == "line" and k == "indent"):
                    setattr(p.knobs, k, v)
            kn = {"default_radix": "HEX"}
            for k in KNOBS:
                if k != "default_radix":
                    kn[k] = getattr(p.knobs, k)
            kn.update({k: v for k, v in pr.items() if k in ("default_radix",)})
            root = self.rng.choice(roots)
            if root.get_name() == "":
                p.knobs.full_name = kn["full_name"] = False
                p.knobs.show_root = kn["show_root"] = False
            before = self.snap()
            want = self.rows(root, kn)
            # a shared object can be printed an exponential number of times
            if len(want) > 1500:
                continue
            text = root.sprint(p)
            mon.check(p.istop() and not p.m_rows, f"{kind} printer is left with a scope or rows after printing")
            mon.check(self.snap() == before, f"{kind}: printing changed an object")
            mon.count("rows", len(want))
            mon.count("nested_rows", sum(r.level > 1 for r in want))
            mon.event("print", kind, [repr(r) for r in want][:20])
            if kind == "rows":
                self.same_rows(kind, kn, [(r.level, r.name, r.type_name, r.size, r.val) for r in p.vp_rows], want)
            elif kind == "table":
                self.read_table(p, kn, text, want)
            elif kind == "tree":
                self.read_tree(kn, text, want)
            else:
                self.read_line(kn, text, want)
            if self.rng.random() < .3:
                again = root.sprint(p)
                mon.check(again == text, f"{kind}: printing an unchanged object twice gives two outputs")
                self.out.take()
                root.print_obj(p)
                shown = self.out.take()[1]
                mon.check(text.strip() in shown, f"{kind}: print_obj shows something else than sprint returns")

    def snap(self):
        res = []
        for o in self.objs + self.comps:
            res.append((o.get_full_name(), [id(getattr(o, f)) for f, _, _, _ in self.fields_of(o)]))
        return res

    def name_ok(self, kn, got, r, cut=False):
        return got == (r.full if kn["full_name"] else r.name)

    def val_ok(self, got, want):
        return got in (want if isinstance(want, tuple) else (want,))

    def same_rows(self, kind, kn, got, want):
        mon = self.mon
        if not mon.check(len(got) == len(want), f"{kind}: number of rows printed", lambda: "", got=len(got), want=len(want),
                         rows=[repr(r) for r in want][:30], printed=got[:30]):
            return
        for g, r in zip(got, want):
            w = dict(row=repr(r), printed=g, knobs=kn)
            mon.check(g[0] == r.level, f"{kind}: level of a row", **w)
            mon.check(self.name_ok(kn, g[1], r), f"{kind}: name of a row", **w)
            mon.check(g[2] == r.typ, f"{kind}: type of a row ({r.typ})", **w)
            mon.check(g[3] == r.size, f"{kind}: size of a row of type {r.typ}", **w)
            mon.check(self.val_ok(g[4], r.val), f"{kind}: value of a row of type {r.typ}", **w)

    def body(self, kn, text):
        """The lines without prefix"""
        lines = text.split("\n")
        if lines[-1] == kn["prefix"]:
            lines.pop()
        for l in lines:
            if not self.mon.check(l.startswith(kn["prefix"]), "a line without the prefix", line=l, knobs=kn):
                return None
        return [l[len(kn["prefix"]):] for l in lines]

    def read_table(self, p, kn, text, want):
        mon = self.mon
        mon.count("tables")
        lines = self.body(kn, text)
        if lines is None:
            return
        cols = [c for c, k in (("Name", "identifier"), ("Type", "type_name"), ("Size", "size")) if kn[k]] + ["Value"]
        w = dict(text=text[:3000], knobs=kn)
        ruler = (lambda l: len(l) > 0 and set(l.strip()) == {"-"})
        if kn["header"]:
            if not mon.check(len(lines) >= 3 and ruler(lines[0]) and lines[1].split() == cols and ruler(lines[2]), "table: header", **w):
                return
            head, lines = lines[1], lines[3:]
        else:
            head = None
        if kn["footer"]:
            if lines and (kn["header"] or lines[-1].strip() == ""):
                if kn["header"]:
                    mon.check(ruler(lines[-1]), "table: footer", **w)
                lines = lines[:-1]
        if not mon.check(len(lines) == len(want), "table: number of rows printed", rows=[repr(r) for r in want][:30], **w):
            return
        if head is None:
            for l, r in zip(lines, want):
                vals = r.val if isinstance(r.val, tuple) else (r.val,)
                mon.check(any(l.rstrip().endswith(v.rstrip()) for v in vals), "table without header: value at the end of the line", line=l, row=repr(r))
            return
        at = [head.index(c) for c in cols] + [None]
        starts = {}
        for l, r in zip(lines, want):
            cell = {c: l[at[i]:at[i + 1]] for i, c in enumerate(cols)}
            ww = dict(line=l, head=head, row=repr(r), knobs=kn)
            if "Name" in cell:
                got = cell["Name"]
                mon.check(self.name_ok(kn, got.strip(), r), "table: name of a row", **ww)
                ind = len(got) - len(got.lstrip())
                starts.setdefault(r.level, set()).add(ind)
            if "Type" in cell:
                mon.check(cell["Type"].rstrip() == r.typ, "table: type of a row in its column", **ww)
            if "Size" in cell:
                mon.check(cell["Size"].rstrip() == r.size, "table: size of a row in its column", **ww)
            mon.check(any(cell["Value"].rstrip() == v.rstrip() for v in (r.val if isinstance(r.val, tuple) else (r.val,))),
                      f"table: value of a row of type {r.typ} in its column", **ww)
            for i in range(1, len(cols)):
                mon.check(l[at[i] - 1] == " ", "table: a cell runs into the next column", **ww)
        self.indents("table", kn, starts, w)

    def indents(self, what, kn, starts, w):
        lv = sorted(starts)
        self.mon.check(all(starts[l] == {l * kn["indent"]} for l in lv), f"{what}: indentation of the rows", starts={l: sorted(s) for l, s in starts.items()}, **w)

    def tokens(self, kn, want):
        """For every line: (level, acceptable texts)"""
        sep = kn["separator"]
        res = []
        for i, r in enumerate(want):
            nxt = want[i + 1].level if i + 1 < len(want) else 0
            vals = []
            for v in (r.val if isinstance(r.val, tuple) else (r.val,)):
                s = ""
                if kn["identifier"]:
                    s += (r.full if kn["full_name"] else r.name) + ": "
                if v.startswith("@"):
                    s += f"({r.typ}{v}) "
                elif kn["type_name"]:
                    s += f"({r.typ}) "
                if kn["size"]:
                    s += f"({r.size}) "
                s += sep[:1] if nxt > r.level else v
                vals.append(" ".join(s.split()))
            res.append((r.level, vals))
            for l in range(r.level - 1, nxt - 1, -1):
                if l >= 0 and nxt < r.level:
                    res.append((l, [sep[1:2]]))
        return res

    def read_tree(self, kn, text, want):
        mon = self.mon
        mon.count("trees")
        lines = self.body(kn, text)
        if lines is None:
            return
        exp = self.tokens(kn, want)
        w = dict(text=text[:3000], knobs=kn, rows=[repr(r) for r in want][:30])
        if not mon.check(len(lines) == len(exp), "tree: number of lines", **w):
            return
        starts = {}
        for l, (level, vals) in zip(lines, exp):
            mon.check(" ".join(l.split()) in vals, "tree: a line shows something else than its field", line=l, expected=vals, **w)
            if l.strip() and kn["identifier"]:
                starts.setdefault(level, set()).add(len(l) - len(l.lstrip()))
        self.indents("tree", kn, starts, w)

    def read_line(self, kn, text, want):
        mon = self.mon
        mon.count("lines")
        w = dict(text=text[:3000], knobs=kn, rows=[repr(r) for r in want][:30])
        mon.check(text.count("\n") == 1 and text.endswith("\n"), "line: the output is not one line", **w)
        mon.check(text.startswith(kn["prefix"]), "line: no prefix", **w)
        got = text[len(kn["prefix"]):].split()
        pos = 0
        for level, vals in self.tokens(kn, want):
            for v in vals:
                t = v.split()
                if got[pos:pos + len(t)] == t:
                    pos += len(t)
                    break
            else:
                mon.violate("line: a field is not shown, or shown differently", f"expected {vals} after {got[max(0, pos - 6):pos]}, got {got[pos:pos + 6]}", **w)
                return
        mon.check(pos == len(got), "line: more text than the fields", **w)
        mon.count("checked_line")
