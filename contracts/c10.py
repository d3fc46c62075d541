"""C10: declared shifts bound what a rule reads.

`may(g, k)` says that the getter g (of a child, or the rule's own) is allowed to be asked for size k; every call of a
getter has it as a precondition.  Each constructor's get_terms is verified under exactly the permissions its declared
shifts grant (child i up to n - shift_i, its own terms below n), and the shifts functions are verified to declare them.
"""
from pyvc.world import World, Contract
from contracts import lib_comp, lib_terms

ASSUMPTIONS = list(lib_comp.ASSUMPTIONS) + [
    "a getter is only asked through a call; calling it (or a parameter map) is a pure function of its arguments",
    "sympy's polynomial division asks no terms (Quotient._b's callees are under contract)"]


INV = "implies(self._shifts is not None, self._children is not None and self._shifts == Strat_shifts(self._strategy, self.comb_class, self._children))"


def world(repo="/repo"):
    w = World(repo)
    P = ["C10"]
    w.u("Getter")
    w.ghostfn("may", ["Getter", "int"], "bool")
    lib_comp.add(w, P)
    shifts(w, P)
    rules(w, P)
    keys(w, P)
    terms(w, P)
    return w


def shifts(w, P):
    w.u("Class")
    w.attr("Class", "minimum_size_of_object", "int", method=True)
    w.u("Strat")
    w.ghostfn("cmins", ["tup[Class]"], "tup[int]")
    w.axiom("cmins: the minimum sizes of the classes (definition)", {"c": "tup[Class]"}, "len(cmins(c)) == len(c)", ["cmins(c)"])
    w.axiom("entries of cmins (definition)", {"c": "tup[Class]", "i": "int"}, "implies(0 <= i and i < len(c), cmins(c)[i] == Class_minimum_size_of_object(c[i]))", ["cmins(c)[i]"])
    S = "strategies.strategy."
    for nm in ("DisjointUnionStrategy", "CartesianProductStrategy"):
        w.record(nm, {}, [], src=("strategies.strategy", nm))
    w.record("AbstractStrategy", {}, [], src=("strategies.strategy", "AbstractStrategy"))
    w.contract(S + "AbstractStrategy.decomposition_function", props=P, params={"comb_class": "Class"}, returns="opt[tup[Class]]", trusted=True)
    par = {"comb_class": "Class", "children": "opt[tup[Class]]"}
    w.contract(S + "DisjointUnionStrategy.shifts", self_type="DisjointUnionStrategy", props=P, params=par, returns="tup[int]", may_raise={"StrategyDoesNotApply": "children is None"},
               ensures=[("one shift per child", "children is None or len(result) == len(children)"), ("no shift", "all(implies(0 <= i and i < len(result), result[i] == 0) for i in ints())")])
    w.contract(S + "CartesianProductStrategy.shifts", self_type="CartesianProductStrategy", props=P, params=par, returns="tup[int]", may_raise={"StrategyDoesNotApply": "children is None"},
               ensures=[("one shift per child", "children is None or len(result) == len(children)"),
                        ("the minimum sizes of the other children", "children is None or all(implies(0 <= i and i < len(result), result[i] == tsum(cmins(children), len(children)) - Class_minimum_size_of_object(children[i])) for i in ints())")])


def rules(w, P):
    """AbstractRule.shifts (cached), ReverseRule.shifts and the forest keys built from them"""
    w.attr("Strat", "shifts", "tup[int]", args=("Class", "tup[Class]"), method=True)
    w.attr("Strat", "decomposition_function", "opt[tup[Class]]", args=("Class",), method=True)
    F = {"_shifts": "opt[tup[int]]", "_strategy": "Strat", "comb_class": "Class", "_children": "opt[tup[Class]]"}
    w.macro("kids(r)", "r._children if r._children is not None else Strat_decomposition_function(r._strategy, r.comb_class)")
    w.record("Rule", F, [("cached shifts are the strategy's", INV)],
             src=("strategies.rule", "Rule"))
    R = "strategies.rule."
    w.contract(R + "AbstractRule.children", self_type="Rule", props=P, returns="tup[Class]", modifies=["self._children"],
               may_raise={"StrategyDoesNotApply": "self._children is None"},
               ensures=[("the strategy's children, cached", "self._children is not None and result == self._children and (result == old(self._children) if old(self._children) is not None else result == Strat_decomposition_function(self._strategy, self.comb_class))")])
    w.contract(R + "AbstractRule.shifts", self_type="Rule", props=P, returns="tup[int]", modifies=["self._children", "self._shifts"],
               may_raise={"StrategyDoesNotApply": "self._children is None"},
               ensures=[("the strategy's shifts for the rule's children", "self._children is not None and result == Strat_shifts(self._strategy, self.comb_class, self._children)"),
                        ("the children stay", "old(self._children) is None or self._children == old(self._children)")])
    w.record("ReverseRule", dict(F, original_rule="Rule", idx="int"), [], src=("strategies.rule", "ReverseRule"))
    w.macro("rsh(r, s, x)", "len(r) == len(s) and r[0] == 0 - s[x] and all(implies(0 <= j and j < x, r[j + 1] == s[j] - s[x]) for j in ints()) and all(implies(x < j and j < len(s), r[j] == s[j] - s[x]) for j in ints())")
    w.contract(R + "ReverseRule.shifts", self_type="ReverseRule", props=P, returns="tup[int]", modifies=["self.original_rule._children", "self.original_rule._shifts"],
               requires=[("cached shifts are the strategy's", INV.replace("self.", "self.original_rule.")), ("idx is a child", "0 <= self.idx and all(all(self.idx < len(Strat_shifts(self.original_rule._strategy, c, cs)) for c in every('Class')) for cs in every('tup[Class]'))")],
               may_raise={"StrategyDoesNotApply": "True"},
               ensures=[("the original parent and the other children, shifted back by the child's own shift", "all(implies(s == Strat_shifts(self.original_rule._strategy, self.original_rule.comb_class, self.original_rule._children), rsh(result, s, self.idx)) for s in every('tup[int]'))")])


def keys(w, P):
    """forest keys: labels of the children paired with the rule's shifts"""
    R = "strategies.rule."
    w.u("RuleBucket")
    w.u("Label")
    w.u("IsEmpty")
    w.attr("Label", "__call__", "int", args=("Class",))
    w.nt("ForestRuleKey", [("parent", "int"), ("children", "tup[int]"), ("shifts", "tup[int]"), ("bucket", "str")], src=("typing", "ForestRuleKey"))
    w.contract(R + "Rule.is_equivalence", props=P, params={"is_empty": "opt[IsEmpty]"}, returns="bool", trusted=True)
    w.contract(R + "Rule.forest_key", self_type="Rule", props=P, params={"get_label": "Label", "is_empty": "opt[IsEmpty]"}, returns="ForestRuleKey",
               modifies=["self._children", "self._shifts"], may_raise={"StrategyDoesNotApply": "self._children is None"},
               ensures=[("label of the parent", "result.parent == Label___call__(get_label, self.comb_class)"),
                        ("labels of the children in order", "self._children is not None and len(result.children) == len(self._children) and all(implies(0 <= i and i < len(self._children), result.children[i] == Label___call__(get_label, self._children[i])) for i in ints())"),
                        ("the strategy's shifts", "result.shifts == Strat_shifts(self._strategy, self.comb_class, self._children)")])
    w.contract(R + "AbstractRule.is_reversible", props=P, returns="bool", trusted=True)
    w.u("TermsCache")
    w.contract("utils.TermsCache()", returns="TermsCache", trusted=True)
    w.contract(R + "ReverseRule.__init__", self_type="ReverseRule", is_init=True, props=P, params={"rule": "Rule", "idx": "int"}, modifies=["self", "rule._children"],
               requires=[("cached shifts are the strategy's", INV.replace("self.", "rule.")), ("idx is a child", "0 <= idx and (idx < len(rule._children) if rule._children is not None else (Strat_decomposition_function(rule._strategy, rule.comb_class) is None or idx < len(Strat_decomposition_function(rule._strategy, rule.comb_class))))")],
               may_raise={"AssertionError": "True", "StrategyDoesNotApply": "rule._children is None"},
               ensures=[("counts the chosen child", "rule._children is not None and same(self.comb_class, rule._children[idx]) and self.idx == idx and same(self.original_rule, rule)"),
                        ("the original parent, then the other children in order", "self._children is not None and len(self._children) == len(rule._children) and same(self._children[0], rule.comb_class) and "
                         "all(implies(1 <= j and j < len(rule._children), same(self._children[j], rule._children[j - 1 if j <= idx else j])) for j in ints())")])
    w.contract(R + "ReverseRule.forest_key", self_type="ReverseRule", props=P, params={"get_label": "Label", "is_empty": "opt[IsEmpty]"}, returns="ForestRuleKey",
               modifies=["self.original_rule._children", "self.original_rule._shifts", "self._children"], may_raise={"StrategyDoesNotApply": "True"},
               requires=[("cached shifts are the strategy's", INV.replace("self.", "self.original_rule.")), ("children are given", "self._children is not None"),
                         ("idx is a child", "0 <= self.idx and all(all(self.idx < len(Strat_shifts(self.original_rule._strategy, c, cs)) for c in every('Class')) for cs in every('tup[Class]'))")],
               ensures=[("label of the parent", "result.parent == Label___call__(get_label, self.comb_class)"),
                        ("labels of the children in order", "len(result.children) == len(self._children) and all(implies(0 <= i and i < len(self._children), result.children[i] == Label___call__(get_label, self._children[i])) for i in ints())"),
                        ("the original shifts, shifted back", "all(implies(s == Strat_shifts(self.original_rule._strategy, self.original_rule.comb_class, self.original_rule._children), rsh(result.shifts, s, self.idx)) for s in every('tup[int]'))")])


def terms(w, P):
    lib_terms.base(w, pre=("read within the declared shift", "may"))
    V = "tuple[tup[int],int]"
    D, C = "strategies.constructor.disjoint.", "strategies.constructor.cartesian."
    every = lambda cond: f"all(all(pat(implies(0 <= i and i < len(subterms) and {cond}, may(subterms[i], k)), may(subterms[i], k)) for k in ints()) for i in ints())"
    cs = {"parent_terms": "Getter", "subterms": "tup[Getter]", "n": "int"}
    w.record("DisjointUnion", {"_children_param_maps": "tup[PMap]"}, [], src=("strategies.constructor.disjoint", "DisjointUnion"))
    w.contract(D + "DisjointUnion.get_terms", self_type="DisjointUnion", props=P, params=cs, returns="counter[tup[int],int]",
               requires=[("one parameter map per child", "len(subterms) == len(self._children_param_maps)"), ("children may be read up to n", every("k <= n"))],
               locals={"new_terms": "counter[tup[int],int]"})
    w.record("Complement", {"_children_param_maps": "tup[PMap]", "_parent_param_map": "PMap"}, [], src=("strategies.constructor.disjoint", "Complement"))
    w.contract(D + "Complement.get_terms", self_type="Complement", props=P, params=cs, returns="counter[tup[int],int]",
               requires=[("one parameter map per sibling", "len(subterms) == len(self._children_param_maps) + 1"), ("parent and siblings may be read up to n", every("k <= n"))],
               may_raise={"AssertionError": "True"},
               locals={"remaining": "counter[tup[int],int]", "parent_terms_mapped": "counter[tup[int],int]"})
    # the product: a composition of n leaves the other children at least their minimum sizes
    D = "tup[dict[str,int]]"
    w.record("CartesianProduct", {"_children_param_maps": "tup[PMap]", "min_child_sizes": D, "max_child_sizes": D}, [], src=("strategies.constructor.cartesian", "CartesianProduct"))
    for nm, t, key in (("mins", "int", "d[i]['n']"), ("maxs", "opt[int]", "d[i]['n'] if 'n' in d[i] else None")):
        w.ghostfn(nm, [D], f"tup[{t}]")
        w.axiom(f"{nm}: the entries for n (definition)", {"d": D}, f"len({nm}(d)) == len(d)", [f"{nm}(d)"])
        w.axiom(f"entries of {nm} (definition)", {"d": D, "i": "int"}, f"implies(0 <= i and i < len(d), {nm}(d)[i] == ({key}))", [f"{nm}(d)[i]"])
    known = "all(implies(0 <= i and i < len(self.min_child_sizes), 'n' in self.min_child_sizes[i]) for i in ints())"
    w.contract(C + "CartesianProduct.min_sizes", self_type="CartesianProduct", props=P, returns="tup[int]", requires=[("sizes are known", known)],
               ensures=[("entries for n", "result == mins(self.min_child_sizes)")], pure_result="mins(self.min_child_sizes)")
    w.contract(C + "CartesianProduct.max_sizes", self_type="CartesianProduct", props=P, returns="tup[opt[int]]",
               ensures=[("entries for n", "result == maxs(self.max_child_sizes)")], pure_result="maxs(self.max_child_sizes)")
    w.contract(C + "CartesianProduct.params_value_pairs_combinations", props=P, params={"sizes": "tup[int]", "sub_getters": "tup[Getter]"}, returns=f"list[tup[{V}]]",
               requires=[("one size per child", "len(sizes) == len(sub_getters)"), ("the sizes may be read", "all(implies(0 <= i and i < len(sizes), may(sub_getters[i], sizes[i])) for i in ints())")],
               ensures=[("one entry per child", "all(pat(implies(0 <= j and j < len(result), len(result[j]) == len(sub_getters)), result[j]) for j in ints())")])
    w.contract("utils.prod", props=P, params={"values": "tup[int]"}, returns="int", raises={"TypeError": "len(values) == 0"})
    rest = lambda t: ("induct", "j", "all(all(all(pat(implies(stp(t, j - 1) and stp(u, j - 1) and 0 <= i and i < j and all(pat(implies(0 <= a and a < j, u[a] <= t[a]), t[a], u[a]) for a in ints()), "
                      "tsum(u, j) <= tsum(t, j) and tsum(u, j) - u[i] <= tsum(t, j) - t[i]), (tsum(t, j), tsum(u, j), u[i]), (tsum(t, j), tsum(u, j), t[i])) for i in ints()) for t in every('tup[int]')) for u in every('tup[int]'))", f"tsum({t}, j)")
    M = "mins(self.min_child_sizes)"
    w.contract(C + "CartesianProduct._new_param", self_type="CartesianProduct", props=P, params={"children_params": "tup[tup[int]]"}, returns="tup[int]")
    w.contract(C + "CartesianProduct.get_terms", self_type="CartesianProduct", props=P, params=cs, returns="counter[tup[int],int]",
               requires=[("one entry per child", "len(subterms) > 0 and len(subterms) == len(self._children_param_maps) and len(subterms) == len(self.min_child_sizes) and len(subterms) == len(self.max_child_sizes)"),
                         ("sizes are known", known), ("sizes are not negative", f"noneg({M})"),
                         ("children may be read up to n minus the other minimum sizes", every(f"k <= n - (tsum({M}, len(subterms)) - {M}[i])"))],
               entry_lemmas=[rest(M)], locals={"new_terms": "counter[tup[int],int]"})
    quotient(w, P, C, rest, every)


def quotient(w, P, C, rest, every):
    T = "counter[tup[int],int]"
    m, x, k = "self._min_sizes", "self.idx", "self.number_of_children"
    S = f"tsum({m}, {k})"
    w.record("Quotient", {"number_of_children": "int", "idx": "int", "_children_param_maps": "tup[PMap]", "_min_sizes": "tup[int]", "_max_sizes": "tup[opt[int]]",
                          "_parent_param_map": "PMap", "_parent_shift": "int", "_num_parent_params": "int", "extra_parameters": "tup[dict[str,str]]"},
             [("one entry per child", "len(self._min_sizes) == self.number_of_children and len(self._max_sizes) == self.number_of_children and len(self._children_param_maps) == self.number_of_children"),
              ("a child is flipped", "0 <= self.idx and self.idx < self.number_of_children"), ("sizes are not negative", f"noneg({m})"),
              ("the shift of the flipped child", f"self._parent_shift == {S} - {m}[{x}]")], src=("strategies.constructor.cartesian", "Quotient"))
    Q = C + "Quotient."
    own = f"all(pat(implies(k < n, may(children_subterms[{x}], k)), may(children_subterms[{x}], k)) for k in ints())"
    oth = lambda bound: f"all(all(pat(implies(0 <= j and j < {k} and j != {x} and k <= {bound}, may(children_subterms[j], k)), may(children_subterms[j], k)) for k in ints()) for j in ints())"
    par = "all(pat(implies(k <= n + self._parent_shift, may(parent_subterm, k)), may(parent_subterm, k)) for k in ints())"
    sib = f"n - {m}[{x}] + {m}[j]"
    one = ("one getter per child", f"len(children_subterms) == {k}")
    for nm in ("_new_param", "_other_new_param"):
        w.contract(Q + nm, self_type="Quotient", props=P, params={"children_params": "tup[tup[int]]"}, returns="tup[int]")
    w.contract(Q + "_a", self_type="Quotient", props=P, params={"n": "int", "parent_subterm": "Getter", "children_subterms": "tup[Getter]"}, returns=T,
               requires=[one, ("parent may be read up to n plus its shift", par), ("own terms may be read below n", own), ("siblings may be read up to n minus their shift", oth(sib))],
               may_raise={"AssertionError": "True"}, entry_lemmas=[rest(m)], locals={"res": T})
    drop = lambda t, u: ("induct", "j", f"all(all(all(pat(implies(stp(t, j - 1) and stp(u, j - 1) and 0 <= i and i < len(t) and len(u) == len(t) - 1 and j <= len(u) and all(pat(implies(0 <= a and a < len(u), u[a] == (t[a] if a < i else t[a + 1])), u[a]) for a in ints()), "
                         "tsum(u, j) == (tsum(t, j) if j <= i else tsum(t, j + 1) - t[i])), (tsum(u, j), t[i])) for i in ints()) for t in every('tup[int]')) for u in every('tup[int]'))", f"tsum({t}, j)")
    w.contract(Q + "_c", self_type="Quotient", props=P, params={"children_subterms": "tup[Getter]"}, returns=T,
               requires=[one, ("siblings may be read up to their minimum size", oth(f"{m}[j]"))],
               may_raise={"AssertionError": "True"}, entry_lemmas=[rest(m), drop(m, m)], locals={"res": T},
               loops={0: {"start": [f"tsum(min_sizes, {k} - 1) == self._parent_shift and tsum(sizes, {k} - 1) == self._parent_shift",
                                   f"all(pat(implies(0 <= a and a < {k} - 1, tsum(sizes, {k} - 1) - sizes[a] >= tsum(min_sizes, {k} - 1) - min_sizes[a]), sizes[a]) for a in ints())",
                                   f"all(pat(implies(0 <= a and a < {k} - 1, sizes[a] <= min_sizes[a]), sizes[a]) for a in ints())",
                                   f"all(pat(implies(0 <= a and a < {x}, min_sizes[a] == {m}[a] and may(children_subterms[a], sizes[a])), sizes[a]) for a in ints())",
                                   f"all(pat(implies({x} <= a and a < {k} - 1, min_sizes[a] == {m}[a + 1]), sizes[a]) for a in ints())",
                                   f"all(pat(implies({x} <= a and a < {k} - 1, sizes[a] <= {m}[a + 1]), sizes[a]) for a in ints())",
                                   f"all(pat(implies({x} <= a and a < {k} - 1, may(children_subterms[a + 1], sizes[a])), sizes[a]) for a in ints())"]}})
    # the division itself reads nothing
    w.u("Poly")
    w.attr("Poly", "__floordiv__", "Poly", args=("Poly",))
    w.attr("Poly", "__mod__", "Poly", args=("Poly",))
    w.ghostfn("Poly_of_int", ["int"], "Poly")
    w.contract(Q + "_terms_to_poly", self_type="Quotient", props=P, params={"terms": T}, returns="Poly", trusted=True)
    w.contract(Q + "_poly_to_terms", props=P, params={"poly": "Poly"}, returns=T, trusted=True)
    w.externs["sympy.div"] = Contract("sympy.div", params={"a": "Poly", "b": "Poly", "domain": "str"}, returns="tuple[Poly,Poly]")
    allb = [("parent may be read up to n plus its shift", par), ("own terms may be read below n", own), ("siblings may be read up to n minus their shift", oth(sib))]
    w.contract(Q + "_b", self_type="Quotient", props=P, params={"n": "int", "parent_subterm": "Getter", "children_subterms": "tup[Getter]"}, returns=T,
               requires=[one, ("at least the minimum size", f"{m}[{x}] <= n")] + allb, may_raise={"AssertionError": "True"})
    low = f"all(all(pat(implies(1 <= j and j <= {x} and k <= n - {m}[{x}] + {m}[j - 1], may(subterms[j], k)), may(subterms[j], k)) for k in ints()) for j in ints())"
    high = f"all(all(pat(implies({x} < j and j < {k} and k <= {sib}, may(subterms[j], k)), may(subterms[j], k)) for k in ints()) for j in ints())"
    w.contract(Q + "get_terms", self_type="Quotient", props=P, params={"parent_terms": "Getter", "subterms": "tup[Getter]", "n": "int"}, returns=T,
               requires=[("one getter per child", f"len(subterms) == {k}"),
                         ("the original parent may be read up to n minus its shift", f"all(pat(implies(k <= n + {S} - {m}[{x}], may(subterms[0], k)), may(subterms[0], k)) for k in ints())"),
                         ("the earlier siblings up to n minus their shift", low), ("the later siblings up to n minus their shift", high), ("own terms below n", "all(pat(implies(k < n, may(parent_terms, k)), may(parent_terms, k)) for k in ints())")],
               may_raise={"AssertionError": "True"}, locals={"new_terms": T})
    # construction: the sizes are the classes' minimum sizes
    w.attr("Class", "extra_parameters", "tup[str]")
    w.attr("Class", "is_atom", "bool", method=True)
    w.contract(C + "CartesianProduct._build_children_param_map", props=P, trusted=True, returns="tup[PMap]",
               params={"parent": "Class", "children": "tup[Class]", "extra_parameters": "tup[dict[str,str]]"}, ensures=[("one map per child", "len(result) == len(children)")])
    w.contract(Q + "_build_parent_param_map", props=P, trusted=True, use_inv=False, keep_inv=False, returns="PMap", params={"parent": "Class", "children": "tup[Class]"})
    w.contract(Q + "__init__", self_type="Quotient", is_init=True, props=P,
               params={"parent": "Class", "children": "tup[Class]", "idx": "int", "extra_parameters": "opt[tup[dict[str,str]]]"},
               requires=[("a child is flipped", "0 <= idx and idx < len(children)"), ("minimum sizes are not negative", "all(Class_minimum_size_of_object(c) >= 0 for c in every('Class'))")],
               may_raise={"AssertionError": "True"},
               ensures=[("sizes of the children", "same(self._min_sizes, cmins(children)) and self.number_of_children == len(children) and self.idx == idx"),
                        ("only atoms are bounded from above", "all(pat(implies(0 <= i and i < len(children), self._max_sizes[i] == (Class_minimum_size_of_object(children[i]) if Class_is_atom(children[i]) else None)), self._max_sizes[i]) for i in ints())")])
