"""Runs a UVM test (all phases) inside the simulation, and small helpers for generated hierarchies."""
import functools


@functools.lru_cache(None)
def glob(p, s):
    """Reference glob matcher: '*' any string, '?' any character, '+' any non-empty string."""
    if not p:
        return not s
    if p[0] == "*":
        return any(glob(p[1:], s[i:]) for i in range(len(s) + 1))
    if p[0] == "+":
        return any(glob(p[1:], s[i:]) for i in range(1, len(s) + 1))
    return bool(s) and (p[0] == "?" or p[0] == s[0]) and glob(p[1:], s[1:])


async def run_uvm(cls):
    """Runs cls (already registered with the factory) as the test."""
    from uvm.base.uvm_globals import run_test
    await run_test(cls.__name__)


def random_tree(rng, max_nodes, names):
    """[[parent index, name]...] below an implicit root 0; names unique among siblings"""
    nodes = []
    used = {}
    for i in range(rng.randint(1, max_nodes)):
        p = rng.randint(0, len(nodes)) if rng.random() < .7 else len(nodes)
        left = [n for n in names if n not in used.setdefault(p, set())]
        if not left:
            continue
        n = rng.choice(left)
        used[p].add(n)
        nodes.append([p, n])
    return nodes
