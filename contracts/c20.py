"""C20: the equations of the rules: each child's function with the parent's variables substituted for the child's."""
from pyvc.world import Contract, World

ASSUMPTIONS = [
    "sympy: var(v) is the symbol v, Eq(l, r) the equation l = r (a value of its own), f.subs(d, simultaneous=True) a function of f and the entries of d; + and * on expressions, 1 * x = x",
    "products over a set of variables do not depend on the order (commutative)",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C20"]
    base(w)
    for mod, cls, op, zero in (("disjoint", "DisjointUnion", "__add__", 0), ("cartesian", "CartesianProduct", "__mul__", 1)):
        constructor(w, P, mod, cls, op, zero)
    rules(w, P)
    genf(w, P)
    return w


def base(w):
    M = "dict[str,str]"
    w.u("Expr")
    for op in ("__add__", "__mul__"):
        w.attr("Expr", op, "Expr", args=("Expr",))
    w.ghostfn("Expr_of_int", ["int"], "Expr")
    w.attr("Expr", "subs", "Expr", args=("dict[str,Expr]", "bool"), method=True)
    w.ghostfn("VAR", ["str"], "Expr")
    w.ghostfn("EQ", ["Expr", "Expr"], "Expr")
    w.externs["sympy.var"] = Contract("sympy.var", params={"name": "str"}, returns="Expr", ensures=["result == VAR(name)"], pure_result="VAR(name)")
    w.externs["sympy.Eq"] = Contract("sympy.Eq", params={"lhs": "Expr", "rhs": "Expr"}, returns="Expr", ensures=["result == EQ(lhs, rhs)"], pure_result="EQ(lhs, rhs)")
    w.axiom("1 * x = x", {"x": "Expr"}, "Expr___mul__(Expr_of_int(1), x) == x", ["Expr___mul__(Expr_of_int(1), x)"])
    # pv(m, S, c): the product of the variables in S that m maps to c
    w.ghostfn("pv", [M, "set[str]", "str"], "Expr")
    V = {"m": M, "S": "set[str]", "c": "str", "p": "str"}
    w.axiom("the product over no variable is 1 (definition of pv)", {k: V[k] for k in "mSc"}, "implies(all(p not in S or m[p] != c for p in every('str')), pv(m, S, c) == Expr_of_int(1))", ["pv(m, S, c)"])
    w.axiom("one more variable (definition of pv)", V, "implies(p not in S, pv(m, with_(S, p), c) == (Expr___mul__(pv(m, S, c), VAR(p)) if m[p] == c else pv(m, S, c)))", ["pv(m, with_(S, p), c)"])
    # sub(m): the substitution for a child: each child variable by the product of the parent's variables mapped to it
    w.ghostfn("sub", [M], "dict[str,Expr]")
    w.axiom("sub(m): the child variables (definition)", {"m": M, "c": "str"}, "(c in sub(m)) == any(p in m and m[p] == c for p in every('str'))", ["c in sub(m)"])
    w.axiom("entries of sub (definition)", {"m": M, "c": "str"}, "implies(c in sub(m), sub(m)[c] == pv(m, dom(m), c))", ["sub(m)[c]"])
    w.axiom("substitution depends on the entries only", {"f": "Expr", "d": "dict[str,Expr]", "e": "dict[str,Expr]"},
            "implies(all((c in d) == (c in e) and implies(c in d, d[c] == e[c]) for c in every('str')), Expr_subs(f, d, True) == Expr_subs(f, e, True))", [["Expr_subs(f, d, True)", "Expr_subs(f, e, True)"]])
    w.ghostfn("SEP", ["tup[Expr]", f"tup[{M}]", "int", "bool"], "Expr")


def constructor(w, P, mod, cls, op, zero):
    M = "dict[str,str]"
    tot = "tot" + op.strip("_")
    w.ghostfn(tot, ["tup[Expr]", f"tup[{M}]", "int"], "Expr")
    V = {"f": "tup[Expr]", "m": f"tup[{M}]", "i": "int"}
    w.axiom(f"no child: {zero} (definition of {tot})", {k: V[k] for k in "fm"}, f"{tot}(f, m, 0) == Expr_of_int({zero})", [f"{tot}(f, m, 0)"])
    w.axiom(f"one more child (definition of {tot})", V, f"implies(0 <= i, {tot}(f, m, i + 1) == Expr_{op}({tot}(f, m, i), Expr_subs(f[i], sub(m[i]), True)))", [[f"{tot}(f, m, i)", "f[i]"]])
    w.record(cls, {"extra_parameters": f"tup[{M}]"}, [], src=("strategies.constructor." + mod, cls))
    w.contract(f"strategies.constructor.{mod}.{cls}.get_equation", self_type=cls, props=P, params={"lhs_func": "Expr", "rhs_funcs": "tup[Expr]"}, returns="Expr", locals={"res": "Expr", "subs": "dict[str,Expr]"},
               requires=[("one map per child", "len(rhs_funcs) == len(self.extra_parameters)")],
               loops={0: {"inv": [("the children so far", f"res == {tot}(rhs_funcs, self.extra_parameters, _i0)")]},
                      1: {"inv": [("child variables so far", "all(pat((c in subs) == any(p in _seen1 and extra_parameters[p] == c for p in every('str')), c in subs) for c in every('str'))"),
                                  ("products so far", "all(pat(implies(c in subs, subs[c] == pv(extra_parameters, _seen1, c)), subs[c]) for c in every('str'))")],
                          "after": ["Expr_subs(rhs_func, subs, True) == Expr_subs(rhs_func, sub(extra_parameters), True)"]}},
               ensures=[("the parent's function is the " + ("sum" if zero == 0 else "product") + " of the children's, in the parent's variables", f"result == EQ(lhs_func, {tot}(rhs_funcs, self.extra_parameters, len(rhs_funcs)))")])


def rules(w, P):
    """the equations of the rules themselves: the constructor's, for the functions of the rule's own classes"""
    from contracts import lib_rule
    lib_rule.add(w, ["C01"])
    w.u("Func")
    w.attr("Func", "__call__", "Expr", args=("Class",))
    w.attr("Cons", "get_equation", "Expr", args=("Expr", "tup[Expr]"), method=True)
    w.ghostfn("funcs", ["Func", "tup[Class]"], "tup[Expr]")
    w.axiom("funcs(g, cs): the function of each class (definition)", {"g": "Func", "cs": "tup[Class]"}, "len(funcs(g, cs)) == len(cs)", ["funcs(g, cs)"])
    w.axiom("entries of funcs (definition)", {"g": "Func", "cs": "tup[Class]", "i": "int"}, "implies(0 <= i and i < len(cs), funcs(g, cs)[i] == Func___call__(g, cs[i]))", ["funcs(g, cs)[i]"])
    w.axiom("a constructor's equation depends on the entries only", {"k": "Cons", "l": "Expr", "a": "tup[Expr]", "b": "tup[Expr]"},
            "implies(len(a) == len(b) and all(implies(0 <= i and i < len(a), a[i] == b[i]) for i in ints()), Cons_get_equation(k, l, a) == Cons_get_equation(k, l, b))", [["Cons_get_equation(k, l, a)", "Cons_get_equation(k, l, b)"]])
    R = "strategies.rule."
    w.contract(R + "Rule.get_equation", self_type="Rule", props=P, params={"get_function": "Func"}, returns="Expr", modifies=["self._children", "self._constructor"], may_raise={"StrategyDoesNotApply": "True"},
               ensures=[("the constructor's equation of the rule's own classes", "self._children is not None and consof(self) is not None and result == Cons_get_equation(consof(self), Func___call__(get_function, self.comb_class), funcs(get_function, self._children))")])


def genf(w, P):
    """the answer of get_genf: a solution for the root that was checked against the counts"""
    w.u("Class")
    w.ghostfn("SIMP", ["Expr"], "Expr")
    w.ghostfn("TAYLOR", ["Expr", "int"], "list[Expr]")
    w.ghostfn("FN", ["Class"], "Expr")
    w.attr("Expr", "atoms", "set[Expr]", args=("Expr",), method=True)
    w.record("Spec", {"root": "Class"}, [], src=("specification", "CombinatorialSpecification"))
    S = "specification.CombinatorialSpecification."
    kw = {"self_type": "Spec", "props": P, "trusted": True}
    w.contract(S + "get_equations", returns="tup[Expr]", **kw)
    w.contract(S + "get_function", params={"comb_class": "Class"}, returns="Expr", pure_result="FN(comb_class)", **kw)
    w.ghostfn("COUNTS", ["int"], "list[Expr]")
    w.contract(S + "get_initial_conditions", params={"check": "int"}, returns="list[Expr]", ensures=[("the counts", "result == COUNTS(check)")], **kw)
    w.contract(S + "number_of_cvs", returns="int", **kw)
    w.contract(S + "_satisfies_initial_conditions", params={"solution": "dict[Expr,Expr]", "check": "int"}, returns="bool", **kw)
    w.contract("utils.pretty_print_equations", trusted=True, props=P, params={"root_func": "Expr", "initial_conditions": "list[Expr]", "eqs": "tup[Expr]"}, returns="str")
    w.contract("utils.taylor_expand", trusted=True, props=P, params={"genf": "Expr", "n": "int"}, returns="list[Expr]", may_raise={"TaylorExpansionError": "True"}, ensures=[("the expansion", "result == TAYLOR(genf, n)")])
    w.externs["sympy.solve"] = Contract("sympy.solve", params={"f": "tup[Expr]", "symbols": "set[Expr]", "dict": "bool", "cubics": "bool", "quartics": "bool", "quintics": "bool"}, returns="list[dict[Expr,Expr]]")
    w.externs["sympy.simplify"] = Contract("sympy.simplify", params={"expr": "Expr"}, returns="Expr", ensures=["result == SIMP(expr)"])
    w.contract(S + "get_genf", self_type="Spec", props=P, params={"check": "int"}, returns="Expr", raises={}, may_raise={"NotImplementedError": "True", "KeyError": "True", "IncorrectGeneratingFunctionError": "True", "TaylorExpansionError": "False"},
               ensures=[("a function whose expansion is the counts of the root", "any(result == SIMP(g) and TAYLOR(g, check) == COUNTS(check) for g in every('Expr'))")])
