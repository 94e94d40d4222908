"""cocotb module of one C36 case: runs a UVM test under a real command line and records what was observed."""
import json
import os
import sys

import cocotb
from cocotb.triggers import Timer

sys.path.insert(0, os.environ["VP_HOME"])
from vp.monitor import Output   # noqa: E402

CASE = json.load(open(os.environ["VP_CASE"]))
LOG = {"emits": [], "made": {}, "config": {}, "reports": [], "done": False}


def define():
    from uvm.base.uvm_component import UVMComponent
    from uvm.base.uvm_config_db import UVMConfigDb
    from uvm.base.uvm_object_globals import UVM_DEBUG, UVM_FULL, UVM_HIGH, UVM_LOW, UVM_MEDIUM, UVM_NONE
    from uvm.base.uvm_report_server import UVMReportServer
    from uvm.macros import uvm_component_utils
    from cocotb.utils import get_sim_time
    verbs = {"UVM_NONE": UVM_NONE, "UVM_LOW": UVM_LOW, "UVM_MEDIUM": UVM_MEDIUM, "UVM_HIGH": UVM_HIGH, "UVM_FULL": UVM_FULL, "UVM_DEBUG": UVM_DEBUG}
    emits = CASE["emits"]

    def burst(where, comp):
        """the reports this component makes at this point"""
        for n, e in enumerate(emits):
            if e["where"] == where and e["comp"] == comp.get_full_name():
                srv = UVMReportServer.get_server()
                LOG["reports"] += OUT.take()[0]
                q0 = srv.get_quit_count()
                {"UVM_INFO": comp.uvm_report_info, "UVM_WARNING": comp.uvm_report_warning, "UVM_ERROR": comp.uvm_report_error}[e["sev"]](
                    e["id"], "token%d" % n, verbs[e["verb"]])
                got = [r[:2] for r in OUT.take()[0] if "token%d" % n in r[2]]
                LOG["emits"].append([n, got, srv.get_quit_count() - q0, get_sim_time("ns")])

    class Base(UVMComponent):
        def build_phase(self, phase):
            super().build_phase(phase)
            LOG["made"][self.get_full_name()] = type(self).__name__
            got = {}
            for f in ("i0", "i1", "s0", "s1"):
                out = []
                if UVMConfigDb.get(self, "", f, out):
                    got[f] = out[0]
            LOG["config"][self.get_full_name()] = got
            for k in CASE["tree"].get(self.get_full_name(), []):
                VpDrv.type_id.create(k, self)
            burst("build", self)

        def connect_phase(self, phase):
            burst("connect", self)

        def end_of_elaboration_phase(self, phase):
            burst("end_of_elaboration", self)

        def extract_phase(self, phase):
            burst("extract", self)

    class VpDrv(Base):
        pass
    uvm_component_utils(VpDrv)

    class VpDrv1(VpDrv):
        pass
    uvm_component_utils(VpDrv1)

    class VpDrv2(VpDrv):
        pass
    uvm_component_utils(VpDrv2)

    class TestBase(Base):
        async def run_phase(self, phase):
            phase.raise_objection(self)
            comps = []
            from uvm.base.uvm_coreservice import UVMCoreService
            top = UVMCoreService.get().get_root()
            top.find_all("uvm_test_top*", comps)
            srv = UVMReportServer.get_server()
            LOG["timeout"] = [top.phase_timeout]
            top.set_timeout(777, 1)
            LOG["timeout"].append(top.phase_timeout)
            LOG["quit"] = [srv.get_max_quit_count()]
            srv.set_max_quit_count(5555)
            LOG["quit"].append(srv.get_max_quit_count())
            comps = {c.get_full_name(): c for c in comps}
            at = 0
            for t in CASE["times"]:
                await Timer(t - at, "NS")
                at = t
                for name in sorted(comps):
                    burst("t%d" % t, comps[name])
            phase.drop_objection(self)

    class VpCmdTestA(TestBase):
        pass
    uvm_component_utils(VpCmdTestA)

    class VpCmdTestB(TestBase):
        pass
    uvm_component_utils(VpCmdTestB)


def look():
    from uvm.base.uvm_cmdline_processor import UVMCmdlineProcessor
    clp = UVMCmdlineProcessor.get_inst()
    LOG["args"] = list(clp.get_args())
    LOG["plus"] = list(clp.get_plusargs())
    LOG["uvm"] = list(clp.get_uvm_args())
    LOG["lookups"] = []
    for kind, what in CASE["lookups"]:
        out = [] if kind == "value" else ["old"]
        n = {"value": clp.get_arg_value, "values": clp.get_arg_values, "matches": clp.get_arg_matches}[kind](what, out)
        LOG["lookups"].append([n, out])


@cocotb.test()
async def cmd_run(dut):
    global OUT
    OUT = Output()
    try:
        with OUT:
            import uvm      # noqa
            from uvm.base.uvm_globals import run_test
            define()
            look()
            await run_test("VpCmdTestA")
            LOG["done"] = True
    except BaseException as e:      # noqa
        LOG["error"] = "%s: %s" % (type(e).__name__, str(e)[:500])
        raise
    finally:
        LOG["reports"] += OUT.take()[0]
        with open(os.environ["VP_RESULT"], "w") as f:
            json.dump(LOG, f)
