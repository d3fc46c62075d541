"""C01: the numbers a specification's rules answer are the constructors' and strategies' terms."""
from pyvc.world import World
from contracts import lib_rule

ASSUMPTIONS = list(lib_rule.ASSUMPTIONS)


def world(repo="/repo"):
    w = World(repo)
    lib_rule.add(w, ["C01"])
    return w
