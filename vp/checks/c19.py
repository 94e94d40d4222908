"""C19: packing and unpacking against a reference bit stream.

Each case packs a random sequence of integers, arrays, strings and objects with a packer, or a random object through
pack/pack_bytes/pack_ints, compares the stream and its views with the bits of a reference packer, moves the stream to
another packer as bits, bytes or ints, unpacks and compares every value and the bits consumed. Sizes that exceed the
value or the stream have to be refused with an error and no effect.
Strings without a length or terminator are packed only as the last value (their end is not marked otherwise)."""
from vp.monitor import Output

SIM = False
BATCH = 50
CASES = {"quick": 5000, "thorough": 120000}
TECHNIQUE = "runtime monitoring: packed streams, their views and unpacked values compared with a reference bit stream"
LEVEL_NOTE = "Random values, sizes, objects and settings on the real packer; exploration, no claim beyond what ran."
RULE = ("1-12 values of 0-4096 bits or an object with 0-6 fields per class, random endianness and metadata, streams moved as bits, bytes "
        "or ints; non-trivial: at least 8 bits packed; distinct: hash of sizes and streams")
REQUIRE = {"values": 6000, "strings": 1000, "arrays": 1200, "objects": 2000, "null_objects": 200, "refused": 500, "views": 1500,
           "moved_bits": 600, "moved_bytes": 600, "moved_ints": 600, "negative": 500}
ASSUMPTIONS = []


def gen(rng, tier):
    return {"seed": rng.randint(0, 1 << 40), "big": rng.randint(0, 1), "meta": rng.randint(0, 1),
            "mode": rng.choice(["seq", "seq", "seq", "object", "object"]), "n": rng.randint(1, 8 if tier == "quick" else 12),
            "move": rng.choice(["same", "bits", "bytes", "ints"]), "max": rng.choice([64, 200, 4096])}


def setup():
    import uvm  # noqa


def run(case, mon):
    import random
    out = Output()
    with out:
        c = Case(case, mon, random.Random(case["seed"]), out)
        c.seq() if case["mode"] == "seq" else c.object()
    mon.nontrivial = mon.counters.get("bits", 0) >= 8


def bits_of(value, size, big):
    bits = [(value >> i) & 1 for i in range(size)]
    return bits[::-1] if big else bits


def word(bits):
    return sum(b << i for i, b in enumerate(bits))


class Ref:
    """Reference packer: a list of bits"""

    def __init__(self, big, meta):
        self.bits, self.big, self.meta = [], big, meta

    def field(self, value, size):
        self.bits += bits_of(value, size, self.big)

    def array(self, values, width, size):
        self.field(word([(v >> i) & 1 for v in values for i in range(width)]), size)

    def string(self, s):
        for b in s.encode() + (b"\0" if self.meta else b""):
            self.field(b, 8)

    def view(self, width):
        bits = self.bits + [0] * (-len(self.bits) % width)
        res = [word(bits[i:i + width]) for i in range(0, len(bits), width)]
        return [word(bits_of(v, width, True)) for v in res] if self.big else res


class Case:
    def __init__(self, case, mon, rng, out):
        self.case, self.mon, self.rng, self.out = case, mon, rng, out

    def packer(self):
        from uvm.base.uvm_packer import UVMPacker
        p = UVMPacker()
        p.big_endian, p.use_metadata = self.case["big"], self.case["meta"]
        return p

    def check_stream(self, p, ref):
        mon = self.mon
        mon.count("bits", len(ref.bits))
        mon.equal(p.get_packed_size(), len(ref.bits), "packed size in bits")
        mon.equal(p.get_bits(), word(ref.bits), "packed bits")
        mon.equal(list(p.get_bytes()), ref.view(8), "byte view of the packed stream")
        mon.equal(list(p.get_ints()), ref.view(32), "int view of the packed stream")
        for _ in range(3):
            if ref.bits:
                i = self.rng.randrange(len(ref.bits))
                mon.equal(p.get_bit(i), ref.bits[i], "a bit of the stream")
        mon.count("views")

    def no_errors(self, what):
        reports, text = self.out.take()
        bad = [r for r in reports if r[0] in ("UVM_ERROR", "UVM_FATAL", "UVM_WARNING")]
        self.mon.check(not bad, f"{what}: {bad}")

    # ---- a sequence of values ----------------------------------------------------------------------
    def seq(self):
        case, mon, rng = self.case, self.mon, self.rng
        p, ref = self.packer(), Ref(case["big"], case["meta"])
        todo = []
        for k in range(case["n"]):
            last = k == case["n"] - 1
            kind = rng.choice(["field", "int", "int", "bytes", "ints", "string", "string", "bad", "object"])
            self.out.take()
            mon.count("values")
            if kind in ("field", "int"):
                size = rng.randint(1, case["max"] if kind == "field" else 64)
                v = rng.choice([rng.getrandbits(size), rng.getrandbits(size), 0, (1 << size) - 1, 1, -1, -rng.getrandbits(size),
                                rng.getrandbits(size + 5)])
                if v < 0:
                    mon.count("negative")
                (p.pack_field if kind == "field" else p.pack_field_int)(v, size)
                ref.field(v, size)
                todo.append((kind, size, v & ((1 << size) - 1)))
            elif kind in ("bytes", "ints"):
                mon.count("arrays")
                width = 8 if kind == "bytes" else 32
                vals = [rng.choice([rng.getrandbits(width), 0, (1 << width) - 1]) for _ in range(rng.randint(0, 6))]
                size = rng.choice([-1, len(vals) * width, rng.randint(0, len(vals) * width)])
                given = bytearray(vals) if kind == "bytes" and rng.random() < 0.3 else list(vals)
                (p.pack_bytes if kind == "bytes" else p.pack_ints)(given, *([] if size == -1 else [size]))
                mon.equal(list(given), vals, f"pack_{kind} changed its argument")
                n = len(vals) * width if size == -1 else size
                ref.array(vals, width, n)
                todo.append((kind, size, vals))
            elif kind == "string":
                mon.count("strings")
                s = rng.choice(["", "a", "abc", "Otatko työ mämmiä, Åke?", "x" * 30, "\x7f\x01", "日本"])
                if s.encode() and rng.random() < 0.2 and not case["meta"]:
                    s = s + "\0b"
                p.pack_string(s)
                ref.string(s)
                free = (case["meta"] or last) and "\0" not in s
                todo.append(("string", -1 if free and rng.random() < 0.6 else len(s.encode()), s))
            elif kind == "object":
                obj = self.make_object(2)
                self.out.take()
                mon.count("objects" if obj is not None else "null_objects")
                p.pack_object(obj)
                self.ref_object(ref, obj, True)
                todo.append(("object", 0, obj))
            else:
                mon.count("refused")
                vals = [1, 2]
                width = rng.choice([8, 32])
                (p.pack_bytes if width == 8 else p.pack_ints)(vals, 2 * width + rng.randint(1, 40))
                reports, text = self.out.take()
                mon.check([r for r in reports if r[0] == "UVM_ERROR"] != [], f"packing more bits than the array has was not refused: {text}")
                continue
            self.no_errors(f"packing {todo[-1]}")
        p.set_packed_size()
        self.check_stream(p, ref)
        mon.event("stream", len(ref.bits), hash(tuple(ref.bits)))
        q = self.move(p)
        self.out.take()
        pos = 0
        for kind, size, v in todo:
            if kind in ("field", "int"):
                got = (q.unpack_field if kind == "field" else q.unpack_field_int)(size)
                mon.equal(got, v, f"unpacked {kind} of {size} bits at bit {pos}")
                pos += size
            elif kind in ("bytes", "ints"):
                width = 8 if kind == "bytes" else 32
                n = len(v) * width if size == -1 else size
                old = [rng.getrandbits(width) for _ in v] + [7] * (rng.randint(0, 2) if size != -1 else 0)
                box = bytearray(old) if kind == "bytes" and rng.random() < 0.3 else list(old)
                (q.unpack_bytes if kind == "bytes" else q.unpack_ints)(box, *([] if size == -1 else [size]))
                want = []
                for i in range(len(old)):
                    m = (1 << max(0, min(width, n - i * width))) - 1
                    want.append((old[i] & ~m) | ((v[i] & m) if i < len(v) else 0))
                mon.equal(list(box), want, f"unpacked array of {n} bits at bit {pos}")
                pos += n
            elif kind == "string":
                got = q.unpack_string(*([] if size == -1 else [size]))
                mon.equal(got, v, f"unpacked string at bit {pos} (length given: {size})")
                pos += len(v.encode()) * 8 + (8 if case["meta"] else 0)
            else:
                pos += self.unpack_check(q, v)
            if not (kind == "string" and size == -1 and not case["meta"] and case["move"] in ("bytes", "ints")):
                # (a string without end mark may take the padding of the last byte or int for its end)
                mon.equal(q.count, pos, f"bits consumed after unpacking {kind} of size {size}")
            self.no_errors(f"unpacking {kind}")
        if case["move"] == "same" and rng.random() < 0.5:
            mon.count("refused")
            how = rng.choice(["field", "bytes", "ints"])
            box = [3, 4]
            if how == "field":
                mon.equal(q.unpack_field_int(rng.randint(1, 64)), 0, "value unpacked beyond the end of the stream")
            else:
                (q.unpack_bytes if how == "bytes" else q.unpack_ints)(box)
            mon.equal(box, [3, 4], "array after unpacking beyond the end of the stream")
            reports, text = self.out.take()
            mon.check([r for r in reports if r[:2] == ("UVM_ERROR", "PCKSZ")] != [], f"unpacking beyond the end was not reported: {text}")
            mon.equal(q.count, pos, "position after unpacking beyond the end")

    def move(self, p):
        how = self.case["move"]
        if how == "same":
            return p
        q = self.packer()
        q.pack_field_int(self.rng.getrandbits(9), 9)
        q.reset()
        {"bits": q.put_bits, "bytes": q.put_bytes, "ints": q.put_ints}[how](
            p.get_bits() if how == "bits" else (p.get_bytes() if how == "bytes" else p.get_ints()))
        self.mon.count("moved_" + how)
        return q

    # ---- objects -------------------------------------------------------------------------------------
    def make_class(self, depth):
        from uvm.base.uvm_object import UVMObject
        import uvm.base.uvm_object_globals as g
        import uvm.macros.uvm_object_defines as d
        rng, base, fields = self.rng, UVMObject, []
        meta = self.case["meta"]
        for level in range(rng.choice([1, 1, 2, 3])):
            own = []
            for k in range(rng.randint(0, 4)):
                kind = rng.choice(["int", "int", "int", "str", "obj", "bool"])
                if kind == "str" and not meta:
                    kind = "int"
                own.append((f"g{level}_{k}", kind, rng.choice(["DEFAULT", "ALL_ON", "ALL_ON", "NOPACK"]),
                            self.make_class(depth - 1) if kind == "obj" and depth > 0 else None))
            hand = rng.random() < 0.3
            base = self.one_class(base, level, own, hand)
            d.uvm_object_utils_begin(base)
            for f, kind, mask, sub in own:
                getattr(d, {"int": "uvm_field_int", "bool": "uvm_field_int", "str": "uvm_field_string", "obj": "uvm_field_object"}[kind])(
                    f, {"DEFAULT": g.UVM_DEFAULT, "ALL_ON": g.UVM_ALL_ON, "NOPACK": g.UVM_ALL_ON | g.UVM_NOPACK}[mask])
            d.uvm_object_utils_end(base)
            fields = fields + own
            base.vp_fields = fields
            base.vp_hands = getattr(base.__bases__[0], "vp_hands", []) + ([level] if hand else [])
        return base

    @staticmethod
    def one_class(base, level, own, hand):
        def __init__(self, name=""):
            base.__init__(self, name)
            for f, kind, mask, sub in own:
                setattr(self, f, {"int": 0, "bool": False, "str": ""}.get(kind) if kind != "obj" else (sub("sub") if sub else None))
            setattr(self, f"hand{level}", 0)
        members = {"__init__": __init__}
        if hand:
            def do_pack(self, packer):
                base.do_pack(self, packer)
                packer.pack_field_int(getattr(self, f"hand{level}"), 13)

            def do_unpack(self, packer):
                base.do_unpack(self, packer)
                setattr(self, f"hand{level}", packer.unpack_field_int(13))
            members.update(do_pack=do_pack, do_unpack=do_unpack)
        return type(f"VpC19_{level}", (base,), members)

    def make_object(self, depth):
        if self.rng.random() < 0.15 and self.case["meta"]:
            return None
        o = self.make_class(depth)("obj")
        self.fill(o)
        return o

    def fill(self, o):
        rng = self.rng
        for f, kind, mask, sub in o.vp_fields:
            if kind == "int":
                setattr(o, f, rng.choice([rng.getrandbits(32), 0, rng.getrandbits(31), rng.getrandbits(8), 1, -rng.randint(1, 1 << 31)]))
            elif kind == "bool":
                setattr(o, f, rng.random() < 0.5)
            elif kind == "str":
                setattr(o, f, rng.choice(["", "abc", "äö", "long string with spaces"]))
            elif sub is not None:
                self.fill(getattr(o, f))
                if rng.random() < 0.2 and self.case["meta"]:
                    setattr(o, f, None)
                    self.mon.count("null_objects")
        for h in o.vp_hands:
            setattr(o, f"hand{h}", rng.getrandbits(13))

    def ref_object(self, ref, o, header):
        """Appends what packing o produces"""
        if header and ref.meta:
            ref.bits += [int(o is not None), 0, 0, 0]
        if o is None:
            return
        for f, kind, mask, sub in o.vp_fields:
            v = getattr(o, f)
            if mask == "NOPACK":
                continue
            if kind == "str":
                ref.string(v)
            elif kind in ("int", "bool"):
                ref.field(int(v), 32)
            else:
                self.ref_object(ref, v, True)
        for h in o.vp_hands:
            ref.field(getattr(o, f"hand{h}"), 13)

    def blank(self, o):
        """An object of the same type, with everything different from o"""
        b = type(o)("blank")
        rng = self.rng
        for f, kind, mask, sub in b.vp_fields:
            if kind == "int":
                setattr(b, f, rng.choice([5, -7, 1 << 31]))
            elif kind == "str":
                setattr(b, f, "previous")
            elif sub is not None and getattr(o, f) is not None:
                setattr(b, f, self.blank(getattr(o, f)))
        self.old = getattr(self, "old", {})
        self.old[id(b)] = {f: getattr(b, f) for f, *_ in b.vp_fields}
        return b

    def same(self, o, b, path):
        mon = self.mon
        for f, kind, mask, sub in o.vp_fields:
            v, w = getattr(o, f), getattr(b, f)
            if mask == "NOPACK":
                mon.check(w is self.old[id(b)][f], f"{path}.{f}: a field not packed was changed by unpack")
            elif kind in ("int", "bool"):
                if v < 0:
                    mon.count("negative")
                mon.equal(int(w), int(v) & 0xFFFFFFFF, f"{path}.{f} unpacked")
            elif kind == "str":
                mon.equal(w, v, f"{path}.{f} unpacked")
            elif v is None:
                mon.check(w is None, f"{path}.{f}: unpacked {w!r}, None was packed")
            else:
                mon.check(w is not None, f"{path}.{f}: unpacked None, an object was packed")
                self.same(v, w, path + "." + f)
        for h in o.vp_hands:
            mon.equal(getattr(b, f"hand{h}"), getattr(o, f"hand{h}"), f"{path}: member packed by do_pack")

    def unpack_check(self, q, o):
        ref = Ref(self.case["big"], self.case["meta"])
        self.ref_object(ref, o, True)
        if o is None:
            self.mon.check(q.is_null(), "is_null at a packed None")
            q.unpack_object(None)
        else:
            b = self.blank(o)
            if self.case["meta"]:
                self.mon.check(not q.is_null(), "is_null at a packed object")
            q.unpack_object(b)
            self.same(o, b, "object")
        return len(ref.bits)

    def object(self):
        case, mon, rng = self.case, self.mon, self.rng
        mon.count("objects")
        o = self.make_class(2)("o")
        self.fill(o)
        self.out.take()
        for how in rng.sample(["bits", "bytes", "ints"], rng.randint(1, 3)):
            p, q = self.packer(), self.packer()
            ref = Ref(case["big"], case["meta"])
            self.ref_object(ref, o, False)
            b = self.blank(o)
            n = len(ref.bits)
            mon.count("moved_" + how)
            if how == "bits":
                size, bits = o.pack(p)
                mon.equal((size, bits), (n, word(ref.bits)), "size and bits returned by pack")
                used = b.unpack(bits, q)
            elif how == "bytes":
                box = []
                size = o.pack_bytes(box, p)
                mon.equal((size, box), (n, ref.view(8)), "size and bytes of pack_bytes")
                used = b.unpack_bytes(box, q)
            else:
                box = []
                size = o.pack_ints(box, p)
                mon.equal((size, box), (n, ref.view(32)), "size and ints of pack_ints")
                used = b.unpack_ints(box, q)
            self.no_errors("packing and unpacking an object as " + how)
            mon.equal(used, n, f"bits used by unpacking {how}")
            self.check_stream(p, ref)
            self.same(o, b, "object")
            mon.event("object", how, n, hash(tuple(ref.bits)))
