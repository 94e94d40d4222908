"""Whole nanoseconds since the start of a case; at half-way points the number of the nanosecond before."""
from cocotb.utils import get_sim_time


class Clock:
    def __init__(self):
        self.base = get_sim_time("ps")

    def __call__(self):
        return int(get_sim_time("ps") - self.base) // 1000

    def abs(self):
        return get_sim_time("ns")
