"""C08: uniform sampling: which child (or which sizes) the drawn number selects, and how statistics reach the children."""
from pyvc.world import Contract, World

ASSUMPTIONS = [
    "random.randint(1, k) draws each of 1..k with equal probability (named draw(1, k) in the contracts: one call per sample)",
    "a child's counter and sampler are functions of the size and of the entries of the statistics they are given",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C08"]
    w.u("Obj")
    w.u("Rec")
    w.u("Sampler")
    D = "dict[str,int]"
    w.attr("Rec", "__call__", "int", args=("int", D), names=("n", "**"))
    w.attr("Sampler", "__call__", "opt[Obj]", args=("int", D), names=("n", "**"))
    w.ghostfn("draw", ["int", "int"], "int")
    w.externs["random.randint"] = Contract("random.randint", params={"a": "int", "b": "int"}, returns="int", requires=["a <= b"], ensures=["result == draw(a, b)", "a <= result and result <= b"])
    union(w, P, D)
    product(w, P, D)
    rule(w, P, D)
    return w


def union(w, P, D):
    M = "dict[str,str]"
    V = {"m": M, "f": D, "ps": D}
    # clash(m, f, ps): the parent's statistics ps, sent by m, contradict the fixed values f or each other
    w.ghostfn("clash", [M, D, D], "bool")
    w.axiom("clash (definition)", V, "clash(m, f, ps) == any(pat(p in m and ((m[p] in f and f[m[p]] != ps[p]) or any(pat(q in m and m[q] == m[p] and ps[q] != ps[p], m[q]) for q in every('str'))), m[p]) for p in every('str'))", ["clash(m, f, ps)"])
    w.ghostfn("sent", [M, D, D], D)
    w.axiom("sent (definition): the child's statistics", dict(V, c="str"), "(c in sent(m, f, ps)) == (c in f or any(p in m and m[p] == c for p in every('str')))", ["c in sent(m, f, ps)"])
    w.axiom("sent: the fixed values", dict(V, c="str"), "implies(c in f, sent(m, f, ps)[c] == f[c])", ["sent(m, f, ps)[c]"])
    w.axiom("sent: the parent's values", dict(V, p="str"), "implies(p in m and not clash(m, f, ps), sent(m, f, ps)[m[p]] == ps[p])", [["sent(m, f, ps)", "m[p]"]])
    w.record("DisjointUnion", {"number_of_children": "int", "extra_parameters": f"tup[{M}]", "fixed_values": f"tup[{D}]", "zeroes": "tup[set[str]]"},
             [("one entry per child", "len(self.extra_parameters) == self.number_of_children and len(self.fixed_values) == self.number_of_children and len(self.zeroes) == self.number_of_children")],
             src=("strategies.constructor.disjoint", "DisjointUnion"))
    U = "strategies.constructor.disjoint.DisjointUnion."
    known = ("a value for every mapped statistic", "all(all(pat(implies(0 <= i and i < len(self.extra_parameters) and p in self.extra_parameters[i], p in parameters), p in self.extra_parameters[i]) for p in every('str')) for i in ints())")
    w.macro("eqd(a, b)", "all(pat((c in a) == (c in b), c in a) for c in every('str')) and all(pat(implies(c in a, a[c] == b[c]), a[c]) for c in every('str'))")
    S = "sent(self.extra_parameters[i], self.fixed_values[i], parameters)"
    C = "clash(self.extra_parameters[i], self.fixed_values[i], parameters)"
    right = lambda r: f"all(pat(implies(0 <= i and i < len({r}), ({r}[i] is None) == {C} and implies({r}[i] is not None, eqd({r}[i], {S}))), {r}[i]) for i in ints())"
    w.contract(U + "get_extra_parameters", self_type="DisjointUnion", props=P, params={"n": "int", "parameters": D}, returns=f"list[opt[{D}]]", locals={"res": f"list[opt[{D}]]", "update_params": D},
               requires=[known],
               loops={0: {"inv": [("one answer per child", "len(res) == _i0"), ("the children so far", right("res"))]},
                      1: {"inv": [("the children so far", right("res")), ("one answer per child so far", "len(res) == _i0"),
                                  ("statistics so far", "all(pat((c in update_params) == (c in self.fixed_values[i] or any(p in _seen1 and extra_parameters[p] == c for p in every('str'))), c in update_params) for c in every('str'))"),
                                  ("fixed values", "all(pat(implies(c in self.fixed_values[i], update_params[c] == self.fixed_values[i][c]), update_params[c]) for c in every('str'))"),
                                  ("sent values", "all(pat(implies(p in _seen1, update_params[extra_parameters[p]] == parameters[p]), p in _seen1) for p in every('str'))")]}},
               ensures=[("one answer per child", "len(result) == len(self.extra_parameters)"), ("the statistics sent to each child, or None where they clash", right("result"))])
    # the walk of the drawn number through the children's counts
    A = ("tup[Rec]", f"tup[{M}]", f"tup[{D}]", "tup[set[str]]", D, "int")
    w.ghostfn("barred", [D, "set[str]"], "bool")
    w.axiom("barred (definition): a statistic that the child lacks is not zero", {"ps": D, "z": "set[str]"}, "barred(ps, z) == any(p in ps and ps[p] != 0 and p in z for p in every('str'))", ["barred(ps, z)"])
    w.ghostfn("weight", list(A) + ["int"], "int")
    w.ghostfn("upto", list(A) + ["int"], "int")
    V = {"r": A[0], "m": A[1], "f": A[2], "z": A[3], "ps": D, "n": "int", "j": "int"}
    w.axiom("weight (definition): what child j contributes", V, "weight(r, m, f, z, ps, n, j) == (0 if clash(m[j], f[j], ps) or barred(ps, z[j]) else Rec___call__(r[j], n, sent(m[j], f[j], ps)))", ["weight(r, m, f, z, ps, n, j)"])
    w.axiom("upto (definition)", {k: V[k] for k in V if k != "j"}, "upto(r, m, f, z, ps, n, 0) == 0", ["upto(r, m, f, z, ps, n, 0)"])
    w.axiom("upto (definition): one more child", V, "implies(j >= 0, upto(r, m, f, z, ps, n, j + 1) == upto(r, m, f, z, ps, n, j) + weight(r, m, f, z, ps, n, j))", ["upto(r, m, f, z, ps, n, j)"])
    for t, ret in (("Rec", "int"), ("Sampler", "opt[Obj]")):
        w.axiom(f"a {t} depends on the entries of the statistics", {"f": t, "n": "int", "a": D, "b": D}, f"implies(eqd(a, b), {t}___call__(f, n, a) == {t}___call__(f, n, b))", [[f"{t}___call__(f, n, a)", f"{t}___call__(f, n, b)"]])
    args = "subrecs, self.extra_parameters, self.fixed_values, self.zeroes, parameters, n"
    S = "sent(self.extra_parameters[{0}], self.fixed_values[{0}], parameters)".format
    rnd = "draw(1, parent_count)"
    w.contract(U + "random_sample_sub_objects", self_type="DisjointUnion", props=P, returns="tup[opt[Obj]]",
               params={"parent_count": "int", "subsamplers": "tup[Sampler]", "subrecs": "tup[Rec]", "n": "int", "parameters": D},
               requires=[known, ("one counter and one sampler per child", "len(subrecs) == self.number_of_children and len(subsamplers) == self.number_of_children"), ("something to sample", "1 <= parent_count")],
               raises={"RuntimeError": f"all(pat(implies(0 <= j and j <= self.number_of_children, upto({args}, j) < {rnd}), upto({args}, j)) for j in ints())"},
               loops={0: {"inv": [("the counts so far", f"total == upto({args}, _i0)"), ("the drawn number lies beyond them", f"all(pat(implies(0 <= j and j <= _i0, upto({args}, j) < {rnd}), upto({args}, j)) for j in ints())"), ("drawn", f"random_choice == {rnd}")]}},
               ensures=[("the child whose share contains the drawn number is sampled, with its own statistics", f"any(0 <= j and j < self.number_of_children and upto({args}, j) < {rnd} and {rnd} <= upto({args}, j + 1) and "
                         f"len(result) == self.number_of_children and result[j] == Sampler___call__(subsamplers[j], n, {S('j')}) and all(implies(0 <= i and i < len(result) and i != j, result[i] is None) for i in ints()) for j in ints())")])


def product(w, P, D):
    M = "dict[str,str]"
    C = "strategies.constructor.cartesian.CartesianProduct."
    w.ghostfn("size", ["int"], D)
    w.axiom("size(n): the size alone (definition)", {"n": "int", "c": "str"}, "(c in size(n)) == (c == 'n')", ["c in size(n)"])
    w.axiom("size(n): its value", {"n": "int", "c": "str"}, "implies(c == 'n', size(n)[c] == n)", ["size(n)[c]"])
    w.ghostfn("cut", [D], D)
    w.axiom("cut(d): all but the size (definition)", {"d": D, "c": "str"}, "(c in cut(d)) == (c in d and c != 'n')", ["c in cut(d)"])
    w.axiom("cut(d): same values", {"d": D, "c": "str"}, "implies(c != 'n', cut(d)[c] == d[c])", ["cut(d)[c]"])
    w.record("CartesianProduct", {"extra_parameters": f"tup[{M}]", "parent_parameters": "tup[str]"}, [], src=("strategies.constructor.cartesian", "CartesianProduct"))
    S = "sent(self.extra_parameters[i], size({0}[i]['n']), {0}[i])".format
    CL = "clash(self.extra_parameters[i], size({0}[i]['n']), {0}[i])".format
    w.contract(C + "get_extra_parameters", self_type="CartesianProduct", props=P, params={"child_parameters": f"tup[{D}]"}, returns=f"opt[list[{D}]]", locals={"res": f"list[{D}]", "extra_params": D},
               requires=[("one per child", "len(child_parameters) == len(self.extra_parameters)"), ("a size and a value for every parent statistic", "all(all(implies(0 <= i and i < len(child_parameters), 'n' in child_parameters[i] and implies(p in self.extra_parameters[i], p in child_parameters[i])) for p in every('str')) for i in ints())"),
                         ("the parent's statistics", "all(all(implies(0 <= i and i < len(child_parameters) and 0 <= j and j < len(self.parent_parameters), self.parent_parameters[j] in child_parameters[i]) for j in ints()) for i in ints())")],
               may_raise={"AssertionError": "True"},
               loops={0: {"inv": [("one answer per child so far", "len(res) == _i0"), ("no clash so far, and the statistics sent", f"all(pat(implies(0 <= i and i < _i0, not {CL('child_parameters')} and eqd(res[i], {S('child_parameters')})), res[i], child_parameters[i]) for i in ints())")]},
                      1: {"inv": [("one answer per child", "len(res) == _i0"), ("no clash among the children before", f"all(pat(implies(0 <= i and i < _i0, not {CL('child_parameters')} and eqd(res[i], {S('child_parameters')})), res[i], child_parameters[i]) for i in ints())"),
                                  ("statistics so far", "all(pat((c in extra_params) == (c == 'n' or any(p in _seen1 and map_params[p] == c for p in every('str'))), c in extra_params) for c in every('str'))"),
                                  ("the size", "extra_params['n'] == params['n']"),
                                  ("sent values", "all(pat(implies(p in _seen1, extra_params[map_params[p]] == params[p]), p in _seen1) for p in every('str'))")],
                          "start": ["implies(map_params[k] in extra_params and extra_params[map_params[k]] != params[k], clash(map_params, size(params['n']), params))"]}},
               ensures=[("None only when some child's statistics clash", f"implies(result is None, any(pat(0 <= i and i < len(child_parameters) and {CL('child_parameters')}, child_parameters[i]) for i in ints()))"),
                        ("None when some child's statistics clash", f"implies(result is not None, all(pat(implies(0 <= i and i < len(child_parameters), not {CL('child_parameters')}), child_parameters[i]) for i in ints()))"),
                        ("otherwise the statistics sent to each child", f"result is None or (len(result) == len(child_parameters) and all(pat(implies(0 <= i and i < len(child_parameters), eqd(result[i], {S('child_parameters')})), result[i]) for i in ints()))")])
    # the walk of the drawn number through the compositions
    w.u("Key")
    w.records["CartesianProduct"].ghost["key"] = "Key"
    w.ghostfn("VC", ["Key", "int", D], f"tup[tup[{D}]]")
    full = "all(all(implies(0 <= i and i < len({0}), 'n' in {0}[i] and implies(p in self.extra_parameters[i], p in {0}[i])) for p in every('str')) for i in ints()) and all(all(implies(0 <= i and i < len({0}) and 0 <= j and j < len(self.parent_parameters), self.parent_parameters[j] in {0}[i]) for j in ints()) for i in ints()) and len({0}) == len(self.extra_parameters)"
    w.contract(C + "_valid_compositions", self_type="CartesianProduct", props=P, trusted=True, params={"n": "int", "parameters": D}, returns=f"tup[tup[{D}]]", pure_result="VC(self.key, n, parameters)",
               ensures=[("the compositions", "result == VC(self.key, n, parameters)"), ("a size and a value for every parent statistic, for every child", "all(pat(implies(0 <= c and c < len(result), " + full.format("result[c]") + "), result[c]) for c in ints())"),
                        ("one entry per child", "all(pat(implies(0 <= c and c < len(result), len(result[c]) == len(self.extra_parameters)), result[c]) for c in ints())")])
    A = ("tup[Rec]", f"tup[{M}]", f"tup[{D}]")
    V = {"r": A[0], "m": A[1], "cp": A[2], "i": "int"}
    st = "sent(m[i], size(cp[i]['n']), cp[i])"
    w.ghostfn("part", list(A) + ["int"], "int")
    w.axiom("part (definition): the count of child i", V, f"part(r, m, cp, i) == Rec___call__(r[i], cp[i]['n'], cut({st}))", ["part(r, m, cp, i)"])
    w.ghostfn("times", list(A) + ["int"], "int")
    w.axiom("times (definition)", {k: V[k] for k in V if k != "i"}, "times(r, m, cp, 0) == 1", ["times(r, m, cp, 0)"])
    w.axiom("times (definition): one more child", V, "implies(i >= 0, times(r, m, cp, i + 1) == times(r, m, cp, i) * part(r, m, cp, i))", ["times(r, m, cp, i)"])
    w.ghostfn("bad", [f"tup[{M}]", f"tup[{D}]"], "bool")
    w.axiom("bad (definition): some child's statistics clash", {"m": A[1], "cp": A[2]}, "bad(m, cp) == any(pat(0 <= i and i < len(cp) and clash(m[i], size(cp[i]['n']), cp[i]), cp[i]) for i in ints())", ["bad(m, cp)"])
    w.ghostfn("cupto", [A[0], A[1], f"tup[tup[{D}]]", "int"], "int")
    V = {"r": A[0], "m": A[1], "vc": f"tup[tup[{D}]]", "j": "int"}
    w.axiom("cupto (definition)", {k: V[k] for k in V if k != "j"}, "cupto(r, m, vc, 0) == 0", ["cupto(r, m, vc, 0)"])
    w.axiom("cupto (definition): one more composition", V, "implies(j >= 0, cupto(r, m, vc, j + 1) == cupto(r, m, vc, j) + (0 if bad(m, vc[j]) else times(r, m, vc[j], len(vc[j]))))", ["cupto(r, m, vc, j)"])
    args = "subrecs, self.extra_parameters, VC(self.key, n, parameters)"
    rnd = "draw(1, parent_count)"
    w.contract(C + "random_sample_sub_objects", self_type="CartesianProduct", props=P, returns="tup[opt[Obj]]",
               params={"parent_count": "int", "subsamplers": "tup[Sampler]", "subrecs": "tup[Rec]", "n": "int", "parameters": D},
               requires=[("one counter and one sampler per child", "len(subrecs) == len(self.extra_parameters) and len(subsamplers) == len(self.extra_parameters)"), ("something to sample", "1 <= parent_count")],
               may_raise={"AssertionError": "True"},
               raises={"RuntimeError": f"all(pat(implies(0 <= j and j <= len(VC(self.key, n, parameters)), cupto({args}, j) < {rnd}), cupto({args}, j)) for j in ints())"},
               loops={0: {"inv": [("the counts so far", f"total == cupto({args}, _i0)"), ("the drawn number lies beyond them", f"all(pat(implies(0 <= j and j <= _i0, cupto({args}, j) < {rnd}), cupto({args}, j)) for j in ints())"), ("drawn", f"random_choice == {rnd}")]},
                      1: {"inv": [("the children so far", "tmp == times(subrecs, self.extra_parameters, child_parameters, _i1)"), ("one answer per child", "len(extra_parameters) == len(child_parameters)"),
                                  ("the answers to come", f"all(pat(implies(_i1 <= i and i < len(child_parameters), eqd(extra_parameters[i], {S('child_parameters')})), extra_parameters[i]) for i in ints())")],
                          "hint": ["part(subrecs, self.extra_parameters, child_parameters, _prev_i1) == Rec___call__(rec, child_parameters[_prev_i1]['n'], extra_params)",
                                   "tmp == times(subrecs, self.extra_parameters, child_parameters, _prev_i1) * Rec___call__(rec, child_parameters[_prev_i1]['n'], extra_params)",
                                   "tmp == times(subrecs, self.extra_parameters, child_parameters, _prev_i1) * part(subrecs, self.extra_parameters, child_parameters, _prev_i1)"],
                          "start": ["'n' in extra_parameters[_i1] and extra_parameters[_i1]['n'] == child_parameters[_i1]['n']"],
                          "after": ["not bad(self.extra_parameters, child_parameters)", ("induct", "k", "all(pat(implies(0 <= a and a <= k and times(subrecs, self.extra_parameters, child_parameters, a) == 0, times(subrecs, self.extra_parameters, child_parameters, k) == 0), times(subrecs, self.extra_parameters, child_parameters, a)) for a in ints())", "times(subrecs, self.extra_parameters, child_parameters, k)"),
                                    "tmp == times(subrecs, self.extra_parameters, child_parameters, len(child_parameters))"]}},
               at_return=["len(child_parameters) == len(self.extra_parameters)", "len(result) == len(self.extra_parameters)", f"{rnd} <= cupto({args}, _i0 + 1) and cupto({args}, _i0) < {rnd}",
                          "all(pat(implies(0 <= i and i < len(result), result[i] == Sampler___call__(subsamplers[i], VC(self.key, n, parameters)[_i0][i]['n'], cut(sent(self.extra_parameters[i], size(VC(self.key, n, parameters)[_i0][i]['n']), VC(self.key, n, parameters)[_i0][i])))), result[i]) for i in ints())"],
               ensures=[("the composition whose share contains the drawn number is sampled, each child with its own size and statistics", f"any(pat(0 <= j and j < len(VC(self.key, n, parameters)) and cupto({args}, j) < {rnd} and {rnd} <= cupto({args}, j + 1) and "
                         f"len(result) == len(self.extra_parameters) and all(implies(0 <= i and i < len(result), result[i] == Sampler___call__(subsamplers[i], VC(self.key, n, parameters)[j][i]['n'], cut(sent(self.extra_parameters[i], size(VC(self.key, n, parameters)[j][i]['n']), VC(self.key, n, parameters)[j][i])))) for i in ints()), cupto({args}, j)) for j in ints())")])


def rule(w, P, D):
    from contracts import lib_rule
    lib_rule.add(w, ["C01"])
    w.records["Rule"].fields.update(subrecs="opt[tup[Rec]]", subsamplers="opt[tup[Sampler]]")
    w.attr("Cons", "random_sample_sub_objects", "tup[opt[Obj]]", args=("int", "tup[Sampler]", "tup[Rec]", "int", D), method=True, names=("parent_count", "subsamplers", "subrecs", "n", "**"))
    w.attr("Strat", "backward_map", "tup[Obj]", args=("Class", "tup[opt[Obj]]", "tup[Class]"), method=True)
    R = "strategies.rule.Rule."
    w.contract(R + "backward_map", self_type="Rule", props=P, params={"objs": "tup[opt[Obj]]"}, yields="Obj", modifies=["self._children"], may_raise={"StrategyDoesNotApply": "self._children is None"},
               ensures=[("the strategy's objects", "self._children is not None and len(result) == len(Strat_backward_map(self._strategy, self.comb_class, objs, self._children)) and "
                         "all(pat(implies(0 <= i and i < len(result), result[i] == Strat_backward_map(self._strategy, self.comb_class, objs, self._children)[i]), result[i]) for i in ints())"),
                        ("the children stay", "implies(old(self._children) is not None, self._children is not None and same(self._children, old(self._children)))")])
    w.ghostfn("pick", ["tup[Obj]"], "Obj")
    w.externs["random.choice"] = Contract("random.choice", params={"seq": "tup[Obj]"}, returns="Obj", may_raise={"IndexError": "len(seq) == 0"}, ensures=["any(0 <= i and i < len(seq) and result == seq[i] for i in ints())"])
    tot = "own(self, n)[p]"
    sub = f"Strat_backward_map(self._strategy, self.comb_class, Cons_random_sample_sub_objects(consof(self), {tot}, self.subsamplers, self.subrecs, n, parameters), self._children)"
    val = "len(p) == len(self.comb_class.extra_parameters) and all(implies(0 <= i and i < len(p), p[i] == parameters[self.comb_class.extra_parameters[i]]) for i in ints())"
    w.contract(R + "random_sample_object_of_size", self_type="Rule", props=P, params={"n": "int", "parameters": D}, returns="Obj",
               modifies=["self._children", "self._constructor", "self.terms_cache.data"],
               requires=[("a size", "0 <= n"), ("a value for every statistic", "all(implies(0 <= i and i < len(self.comb_class.extra_parameters), self.comb_class.extra_parameters[i] in parameters) for i in ints())")],
               may_raise={"AssertionError": "self.subrecs is None or self.subsamplers is None", "RuntimeError": "self.subterms is None", "StrategyDoesNotApply": "True", "IndexError": "True"},
               at_return=[f"all(pat(implies({val}, total_count == {tot}), {tot}) for p in every('tup[int]'))", "same(subobjs, Cons_random_sample_sub_objects(consof(self), total_count, self.subsamplers, self.subrecs, n, parameters))"],
               ensures=[("an object of the sampled sub objects, drawn with the count of the class as the total",
                         f"self._children is not None and all(pat(implies({val}, any(0 <= i and i < len({sub}) and result == {sub}[i] for i in ints())), {tot}) for p in every('tup[int]'))")])
