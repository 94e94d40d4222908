"""Scenario processes whose exceptions become observations instead of ending the simulation."""
import cocotb

from .exec import note_exc


def spawn(mon, coro):
    async def wrapped():
        try:
            return await coro
        except Exception as e:      # noqa
            note_exc(mon, e)
    return cocotb.start_soon(wrapped())
