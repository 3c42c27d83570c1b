"""Decompiling then recompiling a descriptor keeps its meaning."""
from . import c12


def instances(tier):
    r = c12.instances(tier, recompile=True)
    for i in c12.instances(tier, recompile=False):
        if i.name.startswith("stream-"):
            i.name = "plain-" + i.name[7:]
            r.append(i)
    return r


BUDGET = {"quick": 300, "thorough": 3000}
