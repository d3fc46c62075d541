"""Shared: counting functions of the constructors (get_terms) as sums over their children."""

ASSUMPTIONS = ["calling a sub-getter or a parameter map is a pure function of its arguments"]


def base(w, T="int", pre=None):
    if ("Getter", "__call__") in w.attrs:
        return
    w.u("NotCalled")
    w.u("Getter")
    w.u("PMap")
    w.attr("Getter", "__call__", f"dict[tup[int],{T}]", args=("int",), pre=pre)
    w.attr("PMap", "__call__", "tup[int]", args=("tup[int]",))


def union(w, props):
    base(w)
    # csum(d, m, S, p): sum of d[x] over x in S with m(x) = p;  usum(g, m, n, i, p): the first i children together
    w.ghostfn("csum", ["dict[tup[int],int]", "PMap", "set[tup[int]]", "tup[int]"], "int")
    V = {"d": "dict[tup[int],int]", "m": "PMap", "S": "set[tup[int]]", "p": "tup[int]", "x": "tup[int]"}
    w.axiom("the sum over the empty set is 0 (definition of csum)", {k: V[k] for k in "dmSp"}, "implies(all(y not in S for y in every('tup[int]')), csum(d, m, S, p) == 0)", ["csum(d, m, S, p)"])
    w.axiom("one more element (definition of csum)", V, "implies(x not in S, csum(d, m, with_(S, x), p) == csum(d, m, S, p) + (d[x] if PMap___call__(m, x) == p else 0))",
            ["csum(d, m, with_(S, x), p)"])
    w.ghostfn("usum", ["tup[Getter]", "tup[PMap]", "int", "int", "tup[int]"], "int")
    W = {"g": "tup[Getter]", "m": "tup[PMap]", "n": "int", "i": "int", "p": "tup[int]"}
    w.axiom("no child: 0 (definition of usum)", {k: W[k] for k in "gmnp"}, "usum(g, m, n, 0, p) == 0", ["usum(g, m, n, 0, p)"])
    w.axiom("one more child (definition of usum)", W, "implies(0 <= i, usum(g, m, n, i + 1, p) == usum(g, m, n, i, p) + csum(Getter___call__(g[i], n), m[i], dom(Getter___call__(g[i], n)), p))",
            [["usum(g, m, n, i, p)", "g[i]"]])
    w.record("DisjointUnion", {"_children_param_maps": "tup[PMap]"}, [], src=("strategies.constructor.disjoint", "DisjointUnion"))
    w.contract("strategies.constructor.disjoint.DisjointUnion.get_terms", self_type="DisjointUnion", props=props,
               params={"parent_terms": "NotCalled", "subterms": "tup[Getter]", "n": "int"}, returns="counter[tup[int],int]",
               requires=[("one parameter map per child", "len(subterms) == len(self._children_param_maps)")],
               locals={"new_terms": "counter[tup[int],int]"},
               loops={0: {"inv": [("the children so far", "all(pat(new_terms[p] == usum(subterms, self._children_param_maps, n, _i0, p), new_terms[p]) for p in every('tup[int]'))")]},
                      1: {"let": {"T": "new_terms"}, "inv": [("this child so far", "all(pat(new_terms[p] == T[p] + csum(Getter___call__(child_terms, n), param_map, _seen1, p), new_terms[p]) for p in every('tup[int]'))")]}},
               ensures=[("sum over the children of the mapped terms", "all(result[p] == usum(subterms, self._children_param_maps, n, len(subterms), p) for p in every('tup[int]'))")])


def combos(w, props, T="int"):
    """CartesianProduct: which combinations of children's entries (of value type T) are put together"""
    base(w, T)
    w.ghostfn("NP", [], "int")
    w.ghostfn("col", ["tup[PMap]", "tup[tup[int]]", "int"], "tup[int]")
    w.ghostfn("newp", ["tup[PMap]", "tup[tup[int]]"], "tup[int]")
    V = {"m": "tup[PMap]", "c": "tup[tup[int]]", "j": "int", "i": "int"}
    w.axiom("parameter maps return one value per parameter of the parent (PMap)", {"m": "PMap", "t": "tup[int]"}, "len(PMap___call__(m, t)) == NP() and NP() >= 0", ["PMap___call__(m, t)"])
    w.axiom("col(m, c, j): entry j of each child's mapped parameters (definition)", {k: V[k] for k in "mcj"}, "len(col(m, c, j)) == len(c)", ["col(m, c, j)"])
    w.axiom("entries of col (definition)", V, "implies(0 <= i and i < len(c), col(m, c, j)[i] == PMap___call__(m[i], c[i])[j])", ["col(m, c, j)[i]"])
    w.axiom("newp(m, c): the parent's parameters (definition)", {k: V[k] for k in "mc"}, "len(newp(m, c)) == (NP() if len(c) > 0 else 0)", ["newp(m, c)"])
    w.axiom("entries of newp (definition)", {k: V[k] for k in "mcj"}, "implies(0 <= j and j < len(newp(m, c)), newp(m, c)[j] == tsum(col(m, c, j), len(c)))", ["newp(m, c)[j]"])
    w.record("CartesianProduct", {"_children_param_maps": "tup[PMap]", "min_child_sizes": "tup[dict[str,int]]", "max_child_sizes": "tup[dict[str,int]]"}, [],
             src=("strategies.constructor.cartesian", "CartesianProduct"))
    Q = "strategies.constructor.cartesian.CartesianProduct."
    w.contract(Q + "_new_param", self_type="CartesianProduct", props=props, params={"children_params": "tup[tup[int]]"}, returns="tup[int]",
               requires=[("one map per child", "len(children_params) == len(self._children_param_maps)")],
               ensures=[("sums of the children's mapped parameters", "result == newp(self._children_param_maps, children_params)")],
               pure_result="newp(self._children_param_maps, children_params)")
    PV = f"tuple[tup[int],{T}]"
    D = "tup[dict[str,int]]"
    for nm, t, key in (("mins", "int", "d[i]['n']"), ("maxs", "opt[int]", "d[i]['n'] if 'n' in d[i] else None")):
        w.ghostfn(nm, [D], f"tup[{t}]")
        w.axiom(f"{nm}: the entries for n (definition)", {"d": D}, f"len({nm}(d)) == len(d)", [f"{nm}(d)"])
        w.axiom(f"entries of {nm} (definition)", {"d": D, "i": "int"}, f"implies(0 <= i and i < len(d), {nm}(d)[i] == ({key}))", [f"{nm}(d)[i]"])
    w.contract(Q + "min_sizes", self_type="CartesianProduct", props=props, returns="tup[int]",
               requires=[("sizes are known", "all(implies(0 <= i and i < len(self.min_child_sizes), 'n' in self.min_child_sizes[i]) for i in ints())")],
               ensures=[("entries for n", "result == mins(self.min_child_sizes)")], pure_result="mins(self.min_child_sizes)")
    w.contract(Q + "max_sizes", self_type="CartesianProduct", props=props, returns="tup[opt[int]]",
               ensures=[("entries for n", "result == maxs(self.max_child_sizes)")], pure_result="maxs(self.max_child_sizes)")
    # combinations of entries of the children's terms
    w.macro("iscombo(c, g, z)", f"len(c) == len(g) and all(pat(implies(0 <= i and i < len(g), c[i][0] in Getter___call__(g[i], z[i]) and c[i][1] == Getter___call__(g[i], z[i])[c[i][0]]), c[i]) for i in ints())")
    w.contract(Q + "params_value_pairs_combinations", props=props, params={"sizes": "tup[int]", "sub_getters": "tup[Getter]"}, returns=f"list[tup[{PV}]]",
               requires=[("one size per child", "len(sizes) == len(sub_getters)")],
               ensures=[("only combinations of entries of the given sizes", "all(pat(implies(0 <= j and j < len(result), iscombo(result[j], sub_getters, sizes)), result[j]) for j in ints())"),
                        ("each once", "all(all(implies(0 <= a and a < b and b < len(result), result[a] != result[b]) for b in ints()) for a in ints())"),
                        ("all combinations", f"all(pat(implies(iscombo(c, sub_getters, sizes), has(result, c)), has(result, c)) for c in every('tup[{PV}]'))")])
    w.ghostfn("pars", [f"tup[{PV}]"], "tup[tup[int]]")
    w.ghostfn("vals", [f"tup[{PV}]"], f"tup[{T}]")
    for nm, k in (("pars", 0), ("vals", 1)):
        w.axiom(f"{nm}(c): the entries {k} of the pairs (definition)", {"c": f"tup[{PV}]"}, f"len({nm}(c)) == len(c)", [f"{nm}(c)"])
        w.axiom(f"entries of {nm} (definition)", {"c": f"tup[{PV}]", "i": "int"}, f"implies(0 <= i and i < len(c), {nm}(c)[i] == c[i][{k}])", [f"{nm}(c)[i]"])
    w.ghostfn("combos", ["tup[Getter]", "tup[int]"], f"set[tup[{PV}]]")
    w.axiom("combos(g, z): one entry of each child's terms (definition)", {"g": "tup[Getter]", "z": "tup[int]", "c": f"tup[{PV}]"}, "(c in combos(g, z)) == iscombo(c, g, z)", ["c in combos(g, z)"])
    w.ghostfn("comps", ["int", "int", "tup[int]", "tup[opt[int]]"], "set[tup[int]]")
    w.axiom("comps(n, k, lo, hi): the compositions of n into k parts within the bounds (definition)", {"n": "int", "k": "int", "lo": "tup[int]", "hi": "tup[opt[int]]", "z": "tup[int]"},
            "(z in comps(n, k, lo, hi)) == iscomp(z, n, k, lo, hi)", ["z in comps(n, k, lo, hi)"])


def product(w, props):
    combos(w, props)
    Q, PV = "strategies.constructor.cartesian.CartesianProduct.", "tuple[tup[int],int]"
    w.contract("utils.prod", props=props, params={"values": "tup[int]"}, returns="int", raises={"TypeError": "len(values) == 0"},
               ensures=[("product of the values", "result == tprod(values)")], pure_result="tprod(values)")
    # psum(m, S, p): sum over combinations in S that map to p of the product of their values
    w.ghostfn("psum", ["tup[PMap]", f"set[tup[{PV}]]", "tup[int]"], "int")
    V = {"m": "tup[PMap]", "S": f"set[tup[{PV}]]", "p": "tup[int]", "c": f"tup[{PV}]"}
    w.axiom("the sum over no combination is 0 (definition of psum)", {k: V[k] for k in "mSp"}, f"implies(all(c not in S for c in every('tup[{PV}]')), psum(m, S, p) == 0)", ["psum(m, S, p)"])
    w.axiom("one more combination (definition of psum)", V, "implies(c not in S, psum(m, with_(S, c), p) == psum(m, S, p) + (tprod(vals(c)) if newp(m, pars(c)) == p else 0))", ["psum(m, with_(S, c), p)"])
    # zsum(g, m, Z, p): sum over the sizes in Z
    w.ghostfn("zsum", ["tup[Getter]", "tup[PMap]", "set[tup[int]]", "tup[int]"], "int")
    V = {"g": "tup[Getter]", "m": "tup[PMap]", "Z": "set[tup[int]]", "p": "tup[int]", "z": "tup[int]"}
    w.axiom("the sum over no sizes is 0 (definition of zsum)", {k: V[k] for k in "gmZp"}, "implies(all(z not in Z for z in every('tup[int]')), zsum(g, m, Z, p) == 0)", ["zsum(g, m, Z, p)"])
    w.axiom("one more composition (definition of zsum)", V, "implies(z not in Z, zsum(g, m, with_(Z, z), p) == zsum(g, m, Z, p) + psum(m, combos(g, z), p))", ["zsum(g, m, with_(Z, z), p)"])
    C = "n, len(subterms), mins(self.min_child_sizes), maxs(self.max_child_sizes)"
    G = "subterms, self._children_param_maps"
    w.contract(Q + "get_terms", self_type="CartesianProduct", props=props, params={"parent_terms": "NotCalled", "subterms": "tup[Getter]", "n": "int"}, returns="counter[tup[int],int]",
               requires=[("one entry per child", "len(subterms) > 0 and len(subterms) == len(self._children_param_maps) and len(subterms) == len(self.min_child_sizes) and len(subterms) == len(self.max_child_sizes)"),
                         ("sizes are known", "all(implies(0 <= i and i < len(self.min_child_sizes), 'n' in self.min_child_sizes[i]) for i in ints())"),
                         ("sizes are not negative", "noneg(mins(self.min_child_sizes))")],
               locals={"new_terms": "counter[tup[int],int]"},
               gvars={"Z": ("set[tup[int]]", "setof('tup[int]', lambda x: False)"), "ZP": ("map[tup[int],int]", "mapof('tup[int]', 'int', lambda x: 0)"),
                      "S": (f"set[tup[{PV}]]", f"setof('tup[{PV}]', lambda x: False)"), "SP": (f"map[tup[{PV}],int]", f"mapof('tup[{PV}]', 'int', lambda x: 0)")},
               loops={0: {"inv": [("sizes so far", "all(pat(implies(x in Z, 0 <= ZP[x] and ZP[x] < _i0 and _seq0[ZP[x]] == x), x in Z) for x in every('tup[int]'))"),
                                  ("all sizes so far", "all(pat(implies(0 <= j and j < _i0, _seq0[j] in Z), _seq0[j]) for j in ints())"),
                                  ("terms of the sizes so far", f"all(pat(new_terms[p] == zsum({G}, Z, p), new_terms[p]) for p in every('tup[int]'))")],
                          "step": [("ZP", "store(ZP, sizes, _i0 - 1)"), ("Z", "with_(Z, sizes)")],
                          "after": [f"all(pat(implies(iscomp(x, {C}), has(_seq0, x) and 0 <= hpos(_seq0, x) and x in Z), has(_seq0, x), x in Z) for x in every('tup[int]'))",
                                    f"same(Z, comps({C}))"]},
                      1: {"enter": [("S", f"setof('tup[{PV}]', lambda x: False)")], "let": {"T": "new_terms"},
                          "inv": [("combinations so far", f"all(pat(implies(x in S, 0 <= SP[x] and SP[x] < _i1 and _seq1[SP[x]] == x), x in S) for x in every('tup[{PV}]'))"),
                                  ("all combinations so far", "all(pat(implies(0 <= j and j < _i1, _seq1[j] in S), _seq1[j]) for j in ints())"),
                                  ("terms of the combinations so far", "all(pat(new_terms[p] == T[p] + psum(self._children_param_maps, S, p), new_terms[p]) for p in every('tup[int]'))")],
                          "step": [("SP", "store(SP, param_value_pairs, _i1 - 1)"), ("S", "with_(S, param_value_pairs)")],
                          "after": [f"all(pat(implies(iscombo(x, subterms, sizes), has(_seq1, x) and 0 <= hpos(_seq1, x) and x in S), has(_seq1, x), x in S) for x in every('tup[{PV}]'))",
                                    "same(S, combos(subterms, sizes))"]}},
               ensures=[("sum over the compositions of n of the products of the children's terms",
                         "all(result[p] == zsum(subterms, self._children_param_maps, comps(n, len(subterms), mins(self.min_child_sizes), maxs(self.max_child_sizes)), p) for p in every('tup[int]'))")])


def param_maps(w, props):
    T2 = "tup[tup[int]]"
    par = {"child_pos_to_parent_pos": T2, "num_parent_params": "int", "param": "tup[int]"}
    c = "child_pos_to_parent_pos"
    req = [("positions of every child parameter", f"len(param) <= len({c}) and num_parent_params >= 0"),
           ("positions of parent parameters", f"all(all(pat(implies(0 <= i and i < len({c}) and 0 <= k and k < len({c}[i]), 0 <= {c}[i][k] and {c}[i][k] < num_parent_params), {c}[i][k]) for k in ints()) for i in ints())")]
    w.contract("strategies.constructor.disjoint.DisjointUnion.param_map", props=props, params=par, returns="tup[int]", requires=req,
               may_raise={"AssertionError": f"any(any(any(any(0 <= i and i < len(param) and 0 <= j and j < len(param) and 0 <= k and k < len({c}[i]) and 0 <= m and m < len({c}[j]) and {c}[i][k] == {c}[j][m] and param[i] != param[j] for m in ints()) for k in ints()) for j in ints()) for i in ints())"},
               locals={"new_params": "list[opt[int]]"},
               gvars={"I": ("map[int,int]", "mapof('int', 'int', lambda x: 0)"), "K": ("map[int,int]", "mapof('int', 'int', lambda x: 0)")},
               loops={0: {"inv": [("length", "len(new_params) == num_parent_params"),
                                  ("set positions have a child parameter", f"all(pat(implies(0 <= q and q < num_parent_params and new_params[q] is not None, 0 <= I[q] and I[q] < _i0 and 0 <= K[q] and K[q] < len({c}[I[q]]) and {c}[I[q]][K[q]] == q and new_params[q] == param[I[q]]), new_params[q]) for q in ints())"),
                                  ("child parameters so far", f"all(all(pat(implies(0 <= i and i < _i0 and 0 <= k and k < len({c}[i]), new_params[{c}[i][k]] is not None and new_params[{c}[i][k]] == param[i]), {c}[i][k]) for k in ints()) for i in ints())")]},
                      1: {"inv": [("length", "len(new_params) == num_parent_params"),
                                  ("set positions have a child parameter", f"all(pat(implies(0 <= q and q < num_parent_params and new_params[q] is not None, 0 <= I[q] and I[q] <= pos and 0 <= K[q] and K[q] < len({c}[I[q]]) and {c}[I[q]][K[q]] == q and new_params[q] == param[I[q]]), new_params[q]) for q in ints())"),
                                  ("child parameters so far", f"all(all(pat(implies(0 <= i and (i < pos or (i == pos and k < _i1)) and 0 <= k and k < len({c}[i]), new_params[{c}[i][k]] is not None and new_params[{c}[i][k]] == param[i]), {c}[i][k]) for k in ints()) for i in ints())")],
                          "step": [("I", "store(I, p, pos)"), ("K", "store(K, p, _i1 - 1)")]}},
               ensures=[("one value per parent parameter", "len(result) == num_parent_params"),
                        ("value of the child parameters mapped there", f"all(all(pat(implies(0 <= i and i < len(param) and 0 <= k and k < len({c}[i]), result[{c}[i][k]] == param[i]), {c}[i][k]) for k in ints()) for i in ints())"),
                        ("0 where none is mapped", f"all(implies(0 <= q and q < num_parent_params and all(all(implies(0 <= i and i < len(param) and 0 <= k and k < len({c}[i]), {c}[i][k] != q) for k in ints()) for i in ints()), result[q] == 0) for q in ints())")])
    # msum(c, t, q, i, k): sum of t[a] over entries c[a][b] == q with (a, b) before (i, k)
    w.ghostfn("msum", [T2, "tup[int]", "int", "int", "int"], "int")
    V = {"c": T2, "t": "tup[int]", "q": "int", "i": "int", "k": "int"}
    w.axiom("before the first entry (definition of msum)", {k: V[k] for k in "ctq"}, "msum(c, t, q, 0, 0) == 0", ["msum(c, t, q, 0, 0)"])
    w.axiom("one more entry (definition of msum)", V, "implies(0 <= k and k < len(c[i]), msum(c, t, q, i, k + 1) == msum(c, t, q, i, k) + (t[i] if c[i][k] == q else 0))", [["msum(c, t, q, i, k)", "c[i][k]"]])
    w.axiom("next row (definition of msum)", {k: V[k] for k in "ctqi"}, "msum(c, t, q, i + 1, 0) == msum(c, t, q, i, len(c[i]))", ["msum(c, t, q, i, len(c[i]))"])
    w.contract("strategies.constructor.base.Constructor.param_map", props=props, params=par, returns="tup[int]", requires=req,
               locals={"new_params": "list[int]"},
               loops={0: {"inv": [("length", "len(new_params) == num_parent_params"),
                                  ("sums so far", f"all(pat(implies(0 <= q and q < num_parent_params, new_params[q] == msum({c}, param, q, _i0, 0)), new_params[q]) for q in ints())")]},
                      1: {"inv": [("length", "len(new_params) == num_parent_params"),
                                  ("sums so far", f"all(pat(implies(0 <= q and q < num_parent_params, new_params[q] == msum({c}, param, q, pos, _i1)), new_params[q]) for q in ints())")],
                          "after": [f"all(pat(msum({c}, param, q, pos, len({c}[pos])) == msum({c}, param, q, pos + 1, 0), msum({c}, param, q, pos, len({c}[pos]))) for q in ints())"]}},
               ensures=[("one value per parent parameter", "len(result) == num_parent_params"),
                        ("sum of the child parameters mapped there", f"all(pat(implies(0 <= q and q < num_parent_params, result[q] == msum({c}, param, q, len(param), 0)), result[q]) for q in ints())")])
