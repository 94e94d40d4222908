"""A register model on a simulated bus with hardware registers behind it.

The hardware keeps every register bit by bit and applies the access policy of each bit at every bus access; it knows
nothing of the library. `System` builds the library's model, the sequencer and a driver that serves the bus from the hardware."""
import cocotb
from cocotb.triggers import Timer

from .tasks import spawn

POLICIES = ["RO", "RW", "RC", "RS", "WRC", "WRS", "WC", "WS", "WSRC", "WCRS", "W1C", "W1S", "W1T", "W0C", "W0S", "W0T",
            "W1SRC", "W1CRS", "W0SRC", "W0CRS", "WO", "WOC", "WOS", "W1", "WO1"]
CLEARS_ON_READ = {"RC", "WRC", "WSRC", "W1SRC", "W0SRC"}
SETS_ON_READ = {"RS", "WRS", "WCRS", "W1CRS", "W0CRS"}
WRITE_ONLY = {"WO", "WOC", "WOS", "WO1"}
ONCE = {"W1", "WO1"}
BLIND = {"WC", "WS", "WSRC", "WCRS", "WOC", "WOS"}      # any write has the same effect


def write_bit(policy, old, new, written):
    """the bit a hardware bit of the policy holds after the bit `new` was written to it"""
    if policy in ("RO", "RC", "RS", "NONE"):
        return old
    if policy in ("RW", "WRC", "WRS", "WO"):
        return new
    if policy in ("WC", "WCRS", "WOC"):
        return 0
    if policy in ("WS", "WSRC", "WOS"):
        return 1
    if policy in ONCE:
        return old if written else new
    hit = new == (1 if policy[1] == "1" else 0)
    return old if not hit else {"C": 0, "S": 1, "T": 1 - old}[policy[2]]


def write_field(policy, size, old, new, written):
    return sum(write_bit(policy, old >> i & 1, new >> i & 1, written) << i for i in range(size))


def read_field(policy, size, value):
    """what the field holds after it was read"""
    return 0 if policy in CLEARS_ON_READ else (1 << size) - 1 if policy in SETS_ON_READ else value


def restricted(policy, rights):
    """the policy of a field accessed through a map with the given rights"""
    if rights == "RO":
        return "NONE" if policy in WRITE_ONLY else "RC" if policy in CLEARS_ON_READ else "RS" if policy in SETS_ON_READ else "RO"
    if rights == "WO":
        return "WO" if policy in ("RW", "WO") else "NONE"
    return policy


class HwReg:
    """fields: [(lsb, size, policy)]"""

    def __init__(self, fields, value=0):
        self.fields, self.value = fields, value
        self.written = set()        # fields written once
        self.dirty = set()          # fields being written for the first time by an access in several parts

    def access(self, write, mask, data, rights="RW"):
        """one bus access to the bits of mask; returns what it reads"""
        out = 0
        for k, (lsb, size, policy) in enumerate(self.fields):
            p = restricted(policy, rights)
            for i in range(lsb, lsb + size):
                if not mask >> i & 1:
                    continue
                old = self.value >> i & 1
                if write:
                    new = write_bit(p, old, data >> i & 1, k in self.written)
                    if policy in ONCE and p != "RO" and p != "NONE":
                        self.dirty.add(k)
                else:
                    if p not in WRITE_ONLY and p != "NONE":
                        out |= old << i
                    new = 0 if p in CLEARS_ON_READ else 1 if p in SETS_ON_READ else old
                self.value = self.value & ~(1 << i) | new << i
        return out

    def done(self):
        """the end of an access to the whole register"""
        self.written |= self.dirty
        self.dirty = set()

    def field(self, k):
        lsb, size, _ = self.fields[k]
        return self.value >> lsb & ((1 << size) - 1)

    def put(self, k, v):
        lsb, size, _ = self.fields[k]
        m = ((1 << size) - 1) << lsb
        self.value = self.value & ~m | v << lsb & m


class System:
    """bus: address -> (object with access(write, mask, data), bit offset of the word, bytes per access)"""

    def __init__(self, mon, tag, delays=(0,), responses=False):
        from uvm.base.uvm_object_globals import UVM_NONE  # noqa
        from uvm.comps.uvm_driver import UVMDriver
        from uvm.macros import uvm_object_utils
        from uvm.reg.uvm_reg_adapter import UVMRegAdapter
        from uvm.reg import uvm_reg_model as rm
        from uvm.seq.uvm_sequence_item import UVMSequenceItem
        from uvm.seq.uvm_sequencer import UVMSequencer
        self.mon, self.delays, self.responses = mon, delays, responses
        self.decode = {}
        self.log = []               # (kind, address, data, byte enables, bits, status)
        self.fail = set()           # addresses that answer with an error
        self.busy_hook = None
        self.serve_item = None      # serves register items that come without an adapter
        sys = self

        class BusItem(UVMSequenceItem):
            def __init__(self, name="bus"):
                super().__init__(name)
                self.f = None

            def convert2string(self):
                return str(self.f)
        uvm_object_utils(BusItem)
        self.BusItem = BusItem

        class Adapter(UVMRegAdapter):
            def reg2bus(self, rw):
                it = BusItem("bus")
                it.f = dict(write=rw.kind in (rm.UVM_WRITE, rm.UVM_BURST_WRITE), addr=rw.addr, data=rw.data, be=rw.byte_en, n_bits=rw.n_bits, status=None,
                            ext=getattr(self.get_item(), "extension", None), kind=rw.kind)
                return it

            def bus2reg(self, bus_item, rw):
                rw.kind = rm.UVM_WRITE if bus_item.f["write"] else rm.UVM_READ
                rw.addr = bus_item.f["addr"]
                rw.data = bus_item.f["data"]
                rw.byte_en = bus_item.f["be"]
                rw.status = rm.UVM_IS_OK if bus_item.f["status"] else rm.UVM_NOT_OK
        self.Adapter = Adapter
        self.adapter = Adapter("adapter")
        self.adapter.provides_responses = responses
        self.sqr = UVMSequencer(f"sqr{tag}", None)
        self.drv = UVMDriver(f"drv{tag}", None)
        self.sqr.build_phase(None)
        self.sqr.connect_phase(None)
        self.drv.seq_item_port.connect(self.sqr.seq_item_export)
        self.drv.rsp_port.connect(self.sqr.rsp_export)
        for p in (self.drv.seq_item_port, self.sqr.seq_item_export, self.drv.rsp_port, self.sqr.rsp_export, self.sqr.sqr_rsp_analysis_fifo.analysis_export):
            p.resolve_bindings()
        self.task = spawn(mon, self.drive())

    def serve(self, f):
        """one bus access on the hardware"""
        at = self.decode.get(f["addr"])
        ok = at is not None and f["addr"] not in self.fail
        data = f["data"]
        if ok:
            hw, lsb, nbytes = at[:3]
            mask = ((1 << 8 * nbytes) - 1) << lsb
            got = hw.access(f["write"], mask, data << lsb, *at[3:])
            if not f["write"]:
                data = got >> lsb & ((1 << 8 * nbytes) - 1)
        elif not f["write"]:
            data = 0xDEADBEEF
        self.log.append(("write" if f["write"] else "read", f["addr"], data, f["be"], f["n_bits"], ok, f["ext"]))
        self.mon.count("bus_accesses")
        return data, ok

    async def drive(self):
        n = 0
        while True:
            q = []
            await self.drv.seq_item_port.get_next_item(q)
            it = q[0]
            d = self.delays[n % len(self.delays)]
            n += 1
            if d:
                await Timer(d, "NS")
            if self.serve_item and not isinstance(it, self.BusItem):
                self.serve_item(it)
                self.drv.seq_item_port.item_done()
                continue
            data, ok = self.serve(it.f)
            if self.busy_hook:
                self.busy_hook()
            if self.responses:
                rsp = self.BusItem("rsp")
                rsp.f = dict(it.f, data=data, status=ok)
                it.f = dict(it.f, data=0x5A5A5A, status=False)       # only the response counts
                rsp.set_id_info(it)
                self.drv.seq_item_port.item_done(rsp)
            else:
                it.f = dict(it.f, data=data, status=ok)
                self.drv.seq_item_port.item_done()

    def take(self):
        r, self.log = self.log, []
        return r
