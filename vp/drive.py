"""Runs a coroutine that needs no simulation time to its end."""


def run_now(coro):
    """Value of a coroutine that must complete without waiting for anything."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("call waited although it had nothing to wait for")
