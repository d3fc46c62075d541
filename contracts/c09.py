"""C09: the rule forms count with parameters."""
from pyvc.world import World
from contracts import lib_comp, lib_terms

ASSUMPTIONS = list(lib_terms.ASSUMPTIONS)


def world(repo="/repo"):
    w = World(repo)
    P = ["C09"]
    lib_comp.add(w, ["C10"])
    lib_terms.union(w, P)
    lib_terms.product(w, P)
    lib_terms.param_maps(w, P)
    return w
