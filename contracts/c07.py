"""C07: objects of a rule: the constructors hand each combination of sub-objects to the strategy once."""
from pyvc.world import World
from contracts import lib_comp, lib_maps, lib_terms

ASSUMPTIONS = ["calling a sub-getter or a parameter map is a pure function of its arguments"] + lib_maps.ASSUMPTIONS


def world(repo="/repo"):
    w = World(repo)
    P = ["C07"]
    w.u("Objs")  # a list of objects (or [None]) is one value here: the constructors never change it
    L = "Objs"
    w.literals["[None]"] = "NONES"
    lib_comp.add(w, ["C10"])
    lib_maps.add(w, P)
    lib_terms.combos(w, P, L)
    w.ghostfn("unit", ["int", "int", L], f"tup[{L}]")
    w.ghostfn("T0", [], "tup[int]")
    w.ghostfn("C0", [], f"tup[tuple[tup[int],{L}]]")
    w.ghostfn("NONES", [], L)
    w.axiom("unit(k, i, o): o at i, [None] elsewhere (definition)", {"k": "int", "i": "int", "o": L}, "implies(k >= 0, len(unit(k, i, o)) == k)", ["unit(k, i, o)"])
    w.axiom("entries of unit (definition)", {"k": "int", "i": "int", "o": L, "j": "int"}, "implies(0 <= j and j < k, same(unit(k, i, o)[j], o if i == j else NONES()))", ["unit(k, i, o)[j]"])
    w.record("DisjointUnion", {"_children_param_maps": "tup[PMap]", "number_of_children": "int"}, [], src=("strategies.constructor.disjoint", "DisjointUnion"))
    Y = f"tuple[tup[int],tup[{L}]]"
    val = f"mk('{Y}', PMap___call__(self._children_param_maps[I], p), unit(len(subobjs), I, Getter___call__(subobjs[I], n)[p]))"
    only = lambda y, hi: f"all(pat(implies(0 <= j and j < len({y}), 0 <= YI[j] and YI[j] {hi} and YP[j] in Getter___call__(subobjs[YI[j]], n) and {y}[j] == " + val.replace("[I]", "[YI[j]]").replace("I,", "YI[j],").replace(" p)", " YP[j])").replace("[p]", "[YP[j]]") + f"), {y}[j], YI[j]) for j in ints())"
    once = lambda y: f"all(all(implies(0 <= a and a < b and b < len({y}), YI[a] != YI[b] or YP[a] != YP[b]) for b in ints()) for a in ints())"
    w.contract("strategies.constructor.disjoint.DisjointUnion.get_sub_objects", self_type="DisjointUnion", props=P,
               params={"subobjs": "tup[Getter]", "n": "int"}, yields=Y,
               requires=[("one map per child", "len(subobjs) == len(self._children_param_maps) and len(subobjs) == self.number_of_children")],
               locals={"res": f"list[{L}]"},
               gvars={"YI": ("map[int,int]", "mapof('int', 'int', lambda x: 0)"), "YP": ("map[int,tup[int]]", "mapof('int', 'tup[int]', lambda x: T0())")},
               loops={0: {"inv": [("only entries of the children", only("_yield", "< _i0")), ("each once", once("_yield")),
                                  ("others are None", "len(res) == len(subobjs) and all(pat(implies(0 <= j and j < len(res), same(res[j], NONES())), res[j]) for j in ints())"),
                                  ("children so far", "all(all(pat(implies(0 <= i and i < _i0 and p in Getter___call__(subobjs[i], n), has(_yield, " + val.replace("I", "i") + ")), p in Getter___call__(subobjs[i], n)) for p in every('tup[int]')) for i in ints())")]},
                      1: {"step": [("YI", "store(YI, len(_yield) - 1, i)"), ("YP", "store(YP, len(_yield) - 1, param)")],
                          "inv": [("only entries of the children", only("_yield", "<= i")), ("each once", once("_yield")),
                                  ("this child's entries so far", "all(pat(implies(0 <= j and j < len(_yield) and YI[j] == i, YP[j] in _seen1), _yield[j]) for j in ints())"),
                                  ("others are None", "len(res) == len(subobjs) and all(pat(implies(0 <= j and j < len(res) and j != i, same(res[j], NONES())), res[j]) for j in ints())"),
                                  ("children so far", "all(all(pat(implies(0 <= a and a < i and p in Getter___call__(subobjs[a], n), has(_yield, " + val.replace("I", "a") + ")), p in Getter___call__(subobjs[a], n)) for p in every('tup[int]')) for a in ints())"),
                                  ("this child so far", "all(pat(implies(p in _seen1, has(_yield, " + val.replace("I", "i") + ")), p in _seen1) for p in every('tup[int]'))")]}},
               ensures=[("only entries of the children", only("result", "< len(subobjs)")), ("each once", once("result")),
                        ("each entry of each child", "all(all(implies(0 <= i and i < len(subobjs) and p in Getter___call__(subobjs[i], n), has(result, " + val.replace("I", "i") + ")) for p in every('tup[int]')) for i in ints())")])
    # the product: one combination of entries for each composition of n within the bounds
    Q, PV = "strategies.constructor.cartesian.CartesianProduct.", f"tuple[tup[int],{L}]"
    C = "n, len(subobjs), mins(self.min_child_sizes), maxs(self.max_child_sizes)"
    out = lambda c: f"mk('tuple[tup[int],tup[{L}]]', newp(self._children_param_maps, pars({c})), vals({c}))"
    rng = "all(pat(implies(0 <= j and j < len(Y), 0 <= YA[j] and YA[j] < HI and YZ[j] == ZS[YA[j]] and iscombo(YC[j], subobjs, YZ[j]) and Y[j] == " + out("YC[j]") + "), Y[j], YA[j]) for j in ints())"
    sound = "all(pat(implies(0 <= j and j < len(result), YZ[j] in comps(" + C + ") and iscombo(YC[j], subobjs, YZ[j]) and result[j] == " + out("YC[j]") + "), result[j]) for j in ints())"
    dist = "all(all(implies(0 <= a and a < b and b < len(Y), YZ[a] != YZ[b] or YC[a] != YC[b]) for b in ints()) for a in ints())"
    done = "all(all(pat(implies(0 <= a and a < HI and c in combos(subobjs, ZS[a]), has(_yield, " + out("c") + ")), (ZS[a], c in combos(subobjs, ZS[a]))) for c in every('tup[" + PV + "]')) for a in ints())"
    sub = lambda t, y, hi: t.replace("Y[", y + "[").replace("len(Y)", f"len({y})").replace("HI", hi)
    w.contract(Q + "get_sub_objects", self_type="CartesianProduct", props=P, params={"subobjs": "tup[Getter]", "n": "int"}, yields=Y,
               requires=[("one entry per child", "len(subobjs) > 0 and len(subobjs) == len(self._children_param_maps) and len(subobjs) == len(self.min_child_sizes) and len(subobjs) == len(self.max_child_sizes)"),
                         ("sizes are known", "all(implies(0 <= i and i < len(self.min_child_sizes), 'n' in self.min_child_sizes[i]) for i in ints())"),
                         ("sizes are not negative", "noneg(mins(self.min_child_sizes))")],
               gvars={"YA": ("map[int,int]", "mapof('int', 'int', lambda x: 0)"), "YK": ("map[int,int]", "mapof('int', 'int', lambda x: 0)"),
                      "YZ": ("map[int,tup[int]]", "mapof('int', 'tup[int]', lambda x: T0())"),
                      "YC": (f"map[int,tup[{PV}]]", f"mapof('int', 'tup[{PV}]', lambda x: C0())")},
               loops={0: {"inv": [("only combinations for the sizes so far", sub(rng, "_yield", "_i0").replace("ZS", "_seq0")), ("each once", sub(dist, "_yield", "")),
                                  ("all combinations for the sizes so far", done.replace("HI", "_i0").replace("ZS", "_seq0"))],
                          "after": ["all(pat(implies(z in comps(" + C + "), has(_seq0, z) and 0 <= hpos(_seq0, z) and _seq0[hpos(_seq0, z)] == z), z in comps(" + C + ")) for z in every('tup[int]'))"]},
                      1: {"after": ["all(pat(implies(c in combos(subobjs, sizes), has(_seq1, c) and 0 <= hpos(_seq1, c) and has(_yield, " + out("c") + ")), c in combos(subobjs, sizes)) for c in every('tup[" + PV + "]'))"],
                          "step": [("YA", "store(YA, len(_yield) - 1, _i0)"), ("YK", "store(YK, len(_yield) - 1, _i1 - 1)"), ("YZ", "store(YZ, len(_yield) - 1, sizes)"), ("YC", "store(YC, len(_yield) - 1, param_objs_pairs)")],
                          "inv": [("only combinations for the sizes so far", sub(rng, "_yield", "_i0 + 1").replace("ZS", "_seq0")), ("each once", sub(dist, "_yield", "")),
                                  ("positions of these sizes", "all(pat(implies(0 <= j and j < len(_yield) and YA[j] == _i0, 0 <= YK[j] and YK[j] < _i1 and YC[j] == _seq1[YK[j]]), YA[j], YC[j]) for j in ints())"),
                                  ("all combinations for the sizes before", done.replace("HI", "_i0").replace("ZS", "_seq0")),
                                  ("all combinations so far", "all(pat(implies(0 <= j and j < _i1, has(_yield, " + out("_seq1[j]") + ")), _seq1[j]) for j in ints())")]}},
               ensures=[("only combinations for compositions of n", sound), ("each once", sub(dist, "result", "")),
                        ("all combinations", "all(all(pat(implies(z in comps(" + C + ") and c in combos(subobjs, z), has(result, " + out("c") + ")), (z in comps(" + C + "), c in combos(subobjs, z))) for c in every('tup[" + PV + "]')) for z in every('tup[int]'))")])
    return w
