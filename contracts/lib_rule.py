"""Shared: what a rule answers about its own terms (AbstractRule/Rule/VerificationRule and TermsCache)."""

ASSUMPTIONS = ["a constructor's terms of size n are a function of the sub-getters, the rule itself and n (proved for each constructor under C09; "
               "the own terms it may ask for are those already cached, C10)",
               "a verification strategy's terms are a function of the class and n",
               "TermsCache.clean_keys returns an equal Counter (its key cache is shared by all rules)"]


def add(w, props):
    T = "counter[tup[int],int]"
    w.u("Cons")
    w.u("Class")
    w.u("VStrat")
    w.u("Getter")
    w.u("Bound")
    w.bound = "Bound"
    w.attr("Class", "extra_parameters", "tup[str]")
    w.attr("Cons", "get_terms", T, args=("Bound", "tup[Getter]", "int"), method=True)
    w.attr("VStrat", "get_terms", T, args=("Class", "int"), method=True)
    w.record("TermsCache", {"data": f"list[{T}]"}, [], src=("utils", "TermsCache"))
    w.macro("eqc(a, b)", "all(pat(a[p] == b[p], a[p]) for p in every('tup[int]'))")
    U = "utils.TermsCache."
    w.record("TermsCacheClass", {"KEY_CACHE": "dict[tup[int],tup[int]]"}, [])
    KC = ("keys are cached under themselves", "all(pat(implies(k in cls.KEY_CACHE, cls.KEY_CACHE[k] == k), cls.KEY_CACHE[k]) for k in every('tup[int]'))")
    w.contract(U + "clean_keys", self_type="TermsCacheClass", modifies=["cls.KEY_CACHE"], props=props, params={"terms": T}, returns=T, locals={"new_terms": T}, loops={0: {"inv": [KC, ("terms so far", "all(pat(new_terms[p] == (terms[p] if p in _seen0 else 0), new_terms[p]) for p in every('tup[int]'))")]}}, assume=[KC], lemmas=[KC[1]], ensures=[("equal terms", "eqc(result, terms)")])
    w.contract(U + "append", self_type="TermsCache", props=props, params={"terms": T}, modifies=["self.data"],
               ensures=[("one more entry", "len(self.data) == old(len(self.data)) + 1"), ("with these terms", "eqc(self.data[old(len(self.data))], terms)"),
                        ("the others stay", "all(implies(0 <= i and i < old(len(self.data)), eqc(self.data[i], old(self.data)[i])) for i in ints())")])
    w.contract(U + "__len__", self_type="TermsCache", props=props, returns="int", ensures=[("number of sizes", "result == len(self.data)")], pure_result="len(self.data)")
    w.contract(U + "__getitem__", self_type="TermsCache", props=props, params={"index": "int"}, returns=T, requires=[("cached", "0 <= index and index < len(self.data)")],
               ensures=[("the cached terms", "same(result, self.data[index])")], pure_result="self.data[index]")
    R = "strategies.rule."
    w.u("Strat")
    w.attr("Strat", "decomposition_function", "opt[tup[Class]]", args=("Class",), method=True)
    w.attr("Strat", "constructor", "opt[Cons]", args=("Class", "tup[Class]"), method=True)
    w.macro("consof(r)", "Strat_constructor(r._strategy, r.comb_class, r._children)")
    w.macro("own(r, i)", "Cons_get_terms(Strat_constructor(r._strategy, r.comb_class, r._children), r.bound_get_terms, r.subterms, i)")
    w.macro("vown(r, i)", "VStrat_get_terms(r._strategy, r.comb_class, i)")
    keep = "implies(old(self._children) is not None, self._children is not None and same(self._children, old(self._children)))"
    rec = {"terms_cache": "TermsCache", "comb_class": "Class", "_children": "opt[tup[Class]]"}
    RI = [("the constructor is the strategy's", "self._constructor is None or (self._children is not None and consof(self) is not None and same(self._constructor, consof(self)))"),
          ("every cached size", "len(self.terms_cache.data) == 0 or (self._children is not None and consof(self) is not None and self.subterms is not None and "
                                "all(pat(implies(0 <= i and i < len(self.terms_cache.data), eqc(self.terms_cache.data[i], own(self, i))), self.terms_cache.data[i]) for i in ints()))")]
    w.record("Rule", dict(rec, subterms="opt[tup[Getter]]", _constructor="opt[Cons]", _strategy="Strat"),
             RI,
             ghost={"bound_get_terms": "Bound"}, src=("strategies.rule", "Rule"))
    w.contract(R + "AbstractRule.children", self_type="Rule", props=props, returns="tup[Class]", modifies=["self._children"], may_raise={"StrategyDoesNotApply": "self._children is None"},
               ensures=[("cached", "self._children is not None and result == self._children"), ("the cache stays", keep)])
    w.contract(R + "Rule.constructor", self_type="Rule", props=props, returns="Cons", modifies=["self._children", "self._constructor"],
               may_raise={"StrategyDoesNotApply": "self._constructor is None"},
               ensures=[("the strategy's constructor for the rule's children", "self._children is not None and consof(self) is not None and same(result, consof(self)) and self._constructor is not None"), ("the children stay", keep)])
    lv = {"self_type": "Rule", "props": props, "params": {"n": "int"}, "modifies": ["self._children", "self._constructor", "self.terms_cache.data"],
          "raises": {"RuntimeError": "self.subterms is None"}, "may_raise": {"StrategyDoesNotApply": "self._constructor is None"}}
    kc = "implies(old(self._constructor) is not None, self._constructor is not None)"
    grown = ("computed terms stay", "len(self.terms_cache.data) >= old(len(self.terms_cache.data))")
    w.contract(R + "Rule._ensure_level", ensures=[("sizes up to n are cached", "n < len(self.terms_cache.data)"), grown, ("the children stay", keep)],
               loops={0: {"inv": RI + [grown, ("the children stay", keep), ("the constructor stays", kc)]}}, **lv)
    w.contract(R + "AbstractRule.get_terms", self_type="Rule", returns=T, requires=[("a size", "0 <= n")], ensures=[("the constructor's terms of size n", "self._children is not None and consof(self) is not None and eqc(result, own(self, n))"), ("the children stay", keep)],
               **{k: v for k, v in lv.items() if k != "self_type"})
    w.contract(R + "AbstractRule.count_objects_of_size", self_type="Rule", returns="int", requires=[("a size", "0 <= n"), ("a value for every statistic", "all(implies(0 <= i and i < len(self.comb_class.extra_parameters), self.comb_class.extra_parameters[i] in parameters) for i in ints())")],
               ensures=[("the rule's children are known", "self._children is not None and consof(self) is not None"), ("the number of objects with these statistics", "all(pat(implies(len(p) == len(self.comb_class.extra_parameters) and all(implies(0 <= i and i < len(p), p[i] == parameters[self.comb_class.extra_parameters[i]]) for i in ints()), result == own(self, n)[p]), own(self, n)[p]) for p in every('tup[int]'))")],
               **dict({k: v for k, v in lv.items() if k != "self_type"}, params={"n": "int", "parameters": "dict[str,int]"}))
    VI = [("every cached size", "all(pat(implies(0 <= i and i < len(self.terms_cache.data), eqc(self.terms_cache.data[i], vown(self, i))), self.terms_cache.data[i]) for i in ints())")]
    w.record("VerificationRule", dict(rec, _strategy="VStrat"), VI, src=("strategies.rule", "VerificationRule"))
    lv = {"self_type": "VerificationRule", "props": props, "params": {"n": "int"}, "modifies": ["self.terms_cache.data"]}
    w.contract(R + "VerificationRule._ensure_level", ensures=[("sizes up to n are cached", "n < len(self.terms_cache.data)"), grown], loops={0: {"inv": VI + [grown]}}, **lv)
    w.contract(R + "AbstractRule.get_terms", variant="verification", returns=T, requires=[("a size", "0 <= n")], ensures=[("the strategy's terms of size n", "eqc(result, vown(self, n))")], **lv)
    w.contract(R + "AbstractRule.count_objects_of_size", variant="verification", returns="int", requires=[("a size", "0 <= n"), ("a value for every statistic", "all(implies(0 <= i and i < len(self.comb_class.extra_parameters), self.comb_class.extra_parameters[i] in parameters) for i in ints())")],
               ensures=[("the number of objects with these statistics", "all(pat(implies(len(p) == len(self.comb_class.extra_parameters) and all(implies(0 <= i and i < len(p), p[i] == parameters[self.comb_class.extra_parameters[i]]) for i in ints()), result == vown(self, n)[p]), vown(self, n)[p]) for p in every('tup[int]'))")],
               **dict(lv, params={"n": "int", "parameters": "dict[str,int]"}))
