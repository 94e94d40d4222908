"""The oracles are independent re-definitions: a recursive glob matcher, Python's re on the text between the slashes, integer
arithmetic for the bit and radix helpers (every printed number is read back), a token grammar for formatting and scanning, and
a first-come-first-served key ledger for semaphores driven by concurrent processes in the simulator. Not covered: character
classes of globs ([ ] are literal), field widths in format strings, pre-formatted braces, scanning text glued to the numbers."""
import re

from cocotb.triggers import Timer

from vp.clock import Clock
from vp.tasks import spawn
from vp.uvmrun import glob

SIM = True
BATCH = 40
CASES = {"quick": 2400, "thorough": 60000}
TECHNIQUE = "runtime monitoring: results of the helpers compared with independent definitions; online ledger of semaphore keys"
LEVEL_NOTE = "Random arguments and schedules on the real helpers; exploration, no claim beyond what ran."
RULE = ("either 60 random argument tuples for the pure helpers (strings over a small alphabet so that patterns match often) or a "
        "schedule of 2-6 processes getting, trying and putting 0-4 keys with delays; non-trivial: a match/miss pair or a "
        "blocked process; distinct: hash of arguments/log")
REQUIRE = {"glob_hits": 3000, "glob_misses": 5000, "regex": 2000, "bits": 3000, "radix": 3000, "format": 2000, "scan": 1000,
           "sem_grants": 2000, "sem_blocked": 500, "sem_refused": 200, "leaf": 1000, "fork_joins": 100}
ASSUMPTIONS = ["Python's re module and integer formatting are right"]
AB = "ab.[]_(0?"


def word(rng, n=8, ab="ab.[]_(0"):
    return "".join(rng.choice(ab) for _ in range(rng.randint(0, n)))


def gen(rng, tier):
    if rng.random() < .35:
        procs = []
        for _ in range(rng.randint(2, 6)):
            procs.append([[rng.choice([0, 0, 1, 2, rng.randint(0, 6)]), rng.choice(["get", "get", "put", "try", "getput", "getput"]),
                           rng.choice([1, 1, 1, 2, 3, 0, 4])] for _ in range(rng.randint(1, 8))])
        return {"kind": "sem", "keys": rng.randint(0, 4), "procs": procs}
    if rng.random() < .1:
        return {"kind": "fork", "delays": [rng.randint(0, 9) for _ in range(rng.randint(1, 5))], "mode": rng.choice(["all", "any"])}
    items = []
    for _ in range(60):
        k = rng.choice(["glob", "glob", "glob", "regex", "bits", "radix", "format", "scan", "str", "leaf", "cast", "split"])
        if k == "glob":
            s = word(rng)
            p = "".join(rng.choice(["", "", "*", "?"]) if rng.random() < .4 else c for c in s) if rng.random() < .7 else word(rng, 5, "ab.*?[")
            if rng.random() < .2:
                s = s + rng.choice("ab.")
            if rng.random() < .1:
                p = p.replace("b", "+", 1)
            items.append([k, p, s])
        elif k == "regex":
            items.append([k, "/" + rng.choice(["^", ""]) + rng.choice(["a", "a+", "[ab]", "a.b", "(a|b)b", ".*", "a?b*", "a\\.b", "b{2}"])
                          + rng.choice(["$", ""]) + "/", word(rng)])
        elif k in ("bits", "radix"):
            n = rng.choice([1, 4, 8, 31, 32, 33, 64, 65, 128, rng.randint(1, 200)])
            items.append([k, n, rng.choice([0, (1 << n) - 1, 1 << (n - 1), rng.getrandbits(n)]), rng.randint(0, n + 2)])
        elif k == "format":
            items.append([k, [[rng.choice(["%d", "%0d", "%s", "%0s", "%h", "%0h", "%x", "%0x", "%b", "%0b", "%0t", "%t", "%p"]),
                               rng.choice([0, 1, 9, 255, rng.getrandbits(40)]), word(rng, 4, "ab =:")] for _ in range(rng.randint(0, 4))]])
        elif k == "scan":
            items.append([k, [[rng.choice("dhbfs"), rng.getrandbits(rng.choice([1, 8, 30]))] for _ in range(rng.randint(1, 4))],
                          rng.random() < .2])
        elif k == "leaf":
            items.append([k, [rng.choice(["a", "ab", "x1", "top"]) for _ in range(rng.randint(1, 5))]])
        else:
            items.append([k, word(rng, 12, "abcxyz. äöé_")])
    return {"kind": "pure", "items": items}


def pure(case, mon):
    from uvm.base.sv import sv, uvm_re_match, uvm_glob_to_re, uvm_split_string
    from uvm.base.uvm_globals import uvm_is_match, uvm_string_to_bits, uvm_string_to_severity, uvm_string_to_action
    from uvm.base import uvm_object_globals as og
    from uvm.base.uvm_misc import uvm_leaf_scope, uvm_bitstream_to_string, uvm_integral_to_string
    for it in case["items"]:
        k = it[0]
        if k == "glob":
            want = glob(it[1], it[2]) if it[1] else True
            mon.count("glob_hits" if want else "glob_misses")
            mon.equal(bool(uvm_is_match(it[1], it[2])), want, "glob", f"uvm_is_match({it[1]!r}, {it[2]!r})")
            if want and it[1]:
                mon.equal(uvm_re_match(uvm_glob_to_re(it[1]), it[2]), 0, "glob_re", f"re match of the translated glob {it[1]!r}, {it[2]!r}")
        elif k == "regex":
            want = re.search(it[1][1:-1], it[2]) is not None
            mon.count("regex")
            mon.equal(uvm_re_match(it[1], it[2]) == 0, want, "regex", f"uvm_re_match({it[1]!r}, {it[2]!r})")
            mon.equal(bool(uvm_is_match(it[1], it[2])), want, "regex_glob", f"uvm_is_match({it[1]!r}, {it[2]!r})")
        elif k == "bits":
            mon.count("bits")
            n, v, i = it[1:]
            c = sv.clog2(v)
            mon.check(c == 0 if v <= 1 else (1 << c) >= v > (1 << (c - 1)), "clog2", f"clog2({v}) = {c}")
            mon.equal(sv.get_bit(v, i), v // 2 ** i % 2, "get_bit", f"get_bit({v}, {i})")
            mon.equal(sv.set_bit(v, i, 1), v + (0 if v // 2 ** i % 2 else 2 ** i), "set_bit", f"set_bit({v}, {i})")
            mon.equal(sv.set_bit(v, i, 0), v - (2 ** i if v // 2 ** i % 2 else 0), "clear_bit", f"set_bit({v}, {i}, 0)")
            mon.equal(sv.clear_bit(v, i), v - (2 ** i if v // 2 ** i % 2 else 0), "clear_bit", f"clear_bit({v}, {i})")
            mon.equal(sv.get_vector_of_ones(n), 2 ** n - 1, "ones", f"get_vector_of_ones({n})")
            lo, hi = sorted((i, n))
            r = sv.urandom_range(lo, hi)
            mon.check(lo <= r <= hi, "urandom_range", f"urandom_range({lo},{hi}) = {r}")
        elif k == "radix":
            mon.count("radix")
            n, v, _ = it[1:]
            for radix, base in ((og.UVM_BIN, 2), (og.UVM_OCT, 8), (og.UVM_DEC, 10), (og.UVM_UNSIGNED, 10), (og.UVM_HEX, 16)):
                for f in (uvm_bitstream_to_string, uvm_integral_to_string):
                    t = f(v, n, radix, "'x")
                    ok = t.startswith("'x") or (radix == og.UVM_DEC and v >> (n - 1))
                    try:
                        ok = ok and int(t.replace("'x", ""), base) == v
                    except ValueError:
                        ok = False
                    mon.check(ok, "radix", f"{f.__name__}({v}, {n}, base {base}) = {t!r}")
        elif k == "format":
            mon.count("format")
            fmt = "".join(t + s for s, _, t in it[1])
            args = [("w%d" % v if s in ("%s", "%0s", "%p") else v) for s, v, _ in it[1]]
            want = "".join(t + (f"{a:X}" if s[-1] in "hx" else f"{a:b}" if s[-1] == "b" else str(a))
                           for (s, _, t), a in zip(it[1], args))
            mon.equal(sv.sformatf(fmt, *args).lower(), want.lower(), "format", f"sformatf({fmt!r}, {args})")
        elif k == "scan":
            mon.count("scan")
            words, want = [], []
            for c, v in it[1]:
                if c == "s":
                    w = x = "w%d" % v
                elif c == "h":
                    w, x = "0x%x" % v, v
                elif c == "b":
                    w, x = bin(v)[2:], v
                elif c == "f":
                    w, x = "%d.%d" % (v, v % 7), float("%d.%d" % (v, v % 7))
                else:
                    w, x = ("-%d" % v, -v) if v % 2 else (str(v), v)
                words.append(w)
                want.append(x)
            fmt = " ".join("%" + c for c, _ in it[1])
            if it[2]:
                words.pop()
                want = []
            mon.equal(sv.sscanf(" ".join(words), fmt), want, "scan", f"sscanf({' '.join(words)!r}, {fmt!r})")
        elif k == "leaf":
            mon.count("leaf")
            full = ".".join(it[1])
            mon.equal(uvm_leaf_scope(full), it[1][-1], "leaf", f"uvm_leaf_scope({full!r})")
        elif k == "str":
            want = int.from_bytes(it[1].encode(), "big")
            mon.equal(uvm_string_to_bits(it[1]), want, "string_to_bits", f"uvm_string_to_bits({it[1]!r})")
            for sev, val in (("UVM_INFO", og.UVM_INFO), ("UVM_WARNING", og.UVM_WARNING), ("UVM_ERROR", og.UVM_ERROR),
                             ("UVM_FATAL", og.UVM_FATAL), ("UVM_" + it[1], -1)):
                mon.equal(uvm_string_to_severity(sev, []), val, "severity", f"uvm_string_to_severity({sev})")
            acts = [("UVM_DISPLAY", og.UVM_DISPLAY), ("UVM_LOG", og.UVM_LOG), ("UVM_COUNT", og.UVM_COUNT), ("UVM_EXIT", og.UVM_EXIT),
                    ("UVM_CALL_HOOK", og.UVM_CALL_HOOK), ("UVM_STOP", og.UVM_STOP)]
            pick = [a for j, a in enumerate(acts) if (want >> j) & 1]
            val = 0
            for a in pick:
                val |= a[1]
            mon.equal(uvm_string_to_action("|".join(a[0] for a in pick) or "UVM_NO_ACTION", 0), val, "action",
                      f"uvm_string_to_action({[a[0] for a in pick]})")
        elif k == "cast":
            for T in (int, str, list):
                out = []
                r = sv.cast(out, it[1], T)
                mon.equal((bool(r), out), (T is str, [it[1]] if T is str else []), "cast", f"cast({it[1]!r}, {T})")
        elif k == "split":
            out = []
            uvm_split_string(it[1], ".", out)
            mon.equal(".".join(out), it[1], "split", "split joined again")
            mon.check(not any("." in x for x in out), "split", f"parts {out}")
    mon.event("args", str(case["items"]))
    mon.nontrivial = mon.counters.get("glob_hits", 0) > 0 and mon.counters.get("glob_misses", 0) > 0


async def sem(case, mon):
    from uvm.base.sv import semaphore
    s = semaphore(case["keys"])
    st = {"free": case["keys"]}
    queue = []           # processes waiting, in the order in which they asked
    now = Clock()
    granted = {}

    def grants():
        while queue and queue[0][1] <= st["free"]:
            p, n = queue.pop(0)
            st["free"] -= n
            granted[p] = now()

    async def proc(p, script):
        for delay, op, n in script:
            if delay:
                await Timer(delay, "NS")
            if op == "put":
                st["free"] += n
                grants()
                s.put(n)
            elif op == "try":
                want = not queue and st["free"] >= n
                if want:
                    st["free"] -= n
                else:
                    mon.count("sem_refused")
                mon.equal(bool(s.try_get(n)), want, "try_get", f"try_get({n}) at {now()}")
            else:
                queue.append((p, n))
                grants()
                if p not in granted:
                    mon.count("sem_blocked")
                await s.get(n)
                mon.event("grant", p, n, now())
                if mon.check(p in granted, "granted_early", f"process {p} got {n} keys at {now()} with {st['free']} free and {queue} before"):
                    mon.equal(now(), granted.pop(p), "granted_late", f"time process {p} got {n} keys")
                mon.count("sem_grants")
                if op == "getput":
                    await Timer(1, "NS")
                    st["free"] += n
                    grants()
                    s.put(n)
    tasks = [spawn(mon, proc(p, sc)) for p, sc in enumerate(case["procs"])]

    await Timer(200, "NS")
    for p, t in enumerate(tasks):
        waiting = any(x[0] == p for x in queue)
        if not waiting and not t.done():
            mon.violate("lost_waiter", f"process {p} still waits although its keys are there: granted {granted}, free {st['free']}")
    mon.nontrivial = mon.counters.get("sem_blocked", 0) > 0
    for t in tasks:
        if not t.done():
            t.kill()


async def fork(case, mon):
    from uvm.base.sv import sv
    now = Clock()

    async def d(n):
        await Timer(n, "NS") if n else None
    tasks = [spawn(mon, d(n)) for n in case["delays"]]
    await (sv.fork_join if case["mode"] == "all" else sv.fork_join_any)(tasks)
    mon.count("fork_joins")
    want = (max if case["mode"] == "all" else min)(case["delays"])
    mon.equal(now(), want, "fork_join", f"time fork_join ({case['mode']}) of {case['delays']} returned")
    mon.event("fork", str(case))


async def run(case, mon):
    if case["kind"] == "sem":
        await sem(case, mon)
    elif case["kind"] == "fork":
        await fork(case, mon)
    else:
        pure(case, mon)
