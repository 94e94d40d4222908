"""What one workload case observes: events, counters, violations and a signature."""
import hashlib
import io
import json
import re
import sys


class Monitor:
    """Collects the observations of one case. Never raises: it only records."""
    MAX_VIOL = 5

    def __init__(self, case):
        self.case = case
        self.violations = []      # [{"key":..., "msg":..., "witness":...}]
        self.counters = {}
        self.findings = {}        # known-finding id -> text (probe still fails)
        self._sig = hashlib.sha1()
        self.nontrivial = True
        self.sample = None

    # -- recording -------------------------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def event(self, kind, *what):
        """An observed event: counted, and part of the case's signature (distinctness)."""
        self.count("ev_" + kind)
        self._sig.update(repr((kind, what)).encode())

    def signature(self):
        return self._sig.hexdigest()[:16]

    def violate(self, key, msg, **witness):
        self.count("violations_raised")
        key, msg = _plain(key), msg if _plain(key) == key else f"[{key}] {msg}"
        if len(self.violations) < self.MAX_VIOL:
            self.violations.append({"key": key, "msg": str(msg)[:2000],
                                    "witness": _short(witness)})

    def check(self, ok, key, msg="", **witness):
        self.count("checked_" + _plain(key))
        if not ok:
            self.violate(key, msg() if callable(msg) else msg, **witness)
        return bool(ok)

    def equal(self, got, want, key, msg="", **witness):
        self.count("checked_" + _plain(key))
        try:
            same = type(got) in (bool, int) and type(want) in (bool, int) and int(got) == int(want) \
                or got is want or got == want
        except Exception as e:    # comparison of foreign objects
            same = False
            msg = f"{msg} (comparison raised {e!r})"
        if not same:
            self.violate(key, f"{msg}: got {got!r}, expected {want!r}", **witness)
        return same


def _plain(key):
    """a key without what belongs to one case only"""
    return re.split(r"[(\d,:'\"\[{<]", key)[0].strip()[:48] or "round"


def _short(x):
    s = json.dumps(x, default=repr)
    return json.loads(s) if len(s) < 6000 else s[:6000]


REPORT = re.compile(r"^(UVM_(?:INFO|WARNING|ERROR|FATAL))\b(.*)$")


class Output(io.StringIO):
    """Stands in for sys.stdout while library code runs; reports are parsed from the text."""

    def reports(self):
        """[(severity, id, whole line)] of the UVM report lines printed so far."""
        res = []
        for line in self.getvalue().split("\n"):
            m = REPORT.match(line)
            if m and not re.match(r"^UVM_\w+\s*:\s+\d+$", line):
                ids = re.search(r"@ [\d.]+\w+: \S+ \[([^\]]*)\]", m.group(2)) or re.search(r"\[([^\]]*)\]", m.group(2))
                res.append((m.group(1), ids.group(1) if ids else "", line))
        return res

    def take(self):
        r = self.reports()
        text = self.getvalue()
        self.seek(0)
        self.truncate(0)
        return r, text

    def __enter__(self):
        self._old = sys.stdout
        sys.stdout = self
        return self

    def __exit__(self, *a):
        sys.stdout = self._old
