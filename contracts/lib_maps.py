"""Shared: object maps of the equivalence, path and reverse forms of a rule, in terms of the original rule's maps."""

ASSUMPTIONS = ["the object maps of the original rule are functions (the same objects on every call)"]


def add(w, props):
    w.u("Class")
    w.u("Obj")
    w.u("ORule")
    OT, OL = "tup[opt[Obj]]", "list[Obj]"
    w.attr("ORule", "forward_map", OT, args=("Obj",), method=True)
    w.attr("ORule", "backward_map", OL, args=(OT,), method=True)
    w.attr("ORule", "non_empty_children", "tup[Class]", method=True)
    w.attr("ORule", "children", "tup[Class]")
    R = "strategies.rule."
    w.record("EquivalenceRule", {"original_rule": "ORule", "child_idx": "int", "actual_children": "tup[Class]"}, [], src=("strategies.rule", "EquivalenceRule"))
    w.ghostfn("spot", ["int", "int", "opt[Obj]"], OT)
    w.axiom("spot(k, i, o): o at i, None elsewhere (definition)", {"k": "int", "i": "int", "o": "opt[Obj]"}, "implies(k >= 0, len(spot(k, i, o)) == k)", ["spot(k, i, o)"])
    w.axiom("entries of spot (definition)", {"k": "int", "i": "int", "o": "opt[Obj]", "j": "int"}, "implies(0 <= j and j < k, spot(k, i, o)[j] == (o if i == j else None))", ["spot(k, i, o)[j]"])
    w.contract(R + "EquivalenceRule.forward_map", self_type="EquivalenceRule", props=props, params={"obj": "Obj"}, returns=OT,
               requires=[("the child is one of the original's", "0 <= self.child_idx and self.child_idx < len(ORule_forward_map(self.original_rule, obj))")],
               ensures=[("the original's object of that child", "len(result) == 1 and result[0] == ORule_forward_map(self.original_rule, obj)[self.child_idx]")])
    w.contract(R + "EquivalenceRule.backward_map", self_type="EquivalenceRule", props=props, params={"objs": OT}, yields="Obj",
               requires=[("one object", "len(objs) == 1")],
               ensures=[("the original's objects for that child alone", "same(result, ORule_backward_map(self.original_rule, spot(len(self.actual_children), self.child_idx, objs[0])))")])
    w.record("ReverseRule", {"original_rule": "ORule", "idx": "int", "_children": "opt[tup[Class]]"}, [], src=("strategies.rule", "ReverseRule"))
    w.contract(R + "ReverseRule.forward_map", self_type="ReverseRule", props=props, params={"obj": "Obj"}, returns=OT, locals={"objs": "list[opt[Obj]]"},
               requires=[("a child", "0 <= self.idx and self.idx < len(ORule_children(self.original_rule)) and self._children is not None and len(self._children) > 0")],
               raises={"NotImplementedError": "len(ORule_non_empty_children(self.original_rule)) != 1"},
               may_raise={"AssertionError": "len(ORule_backward_map(self.original_rule, spot(len(ORule_children(self.original_rule)), self.idx, obj))) != 1"},
               ensures=[("one object per child", "len(result) == len(self._children)"),
                        ("the object of the original parent", "result[0] == ORule_backward_map(self.original_rule, spot(len(ORule_children(self.original_rule)), self.idx, obj))[0]"),
                        ("no other objects", "all(implies(1 <= j and j < len(result), result[j] is None) for j in ints())")])
    w.contract(R + "ReverseRule.backward_map", self_type="ReverseRule", props=props, params={"objs": OT}, yields="Obj",
               requires=[("a child", "len(objs) > 0 and all(0 <= self.idx and self.idx < len(ORule_forward_map(self.original_rule, o)) for o in every('Obj'))")],
               raises={"NotImplementedError": "len(ORule_non_empty_children(self.original_rule)) != 1"},
               may_raise={"AssertionError": "True"},
               ensures=[("the original's object of that child", "len(result) == 1 and objs[0] is not None and result[0] == ORule_forward_map(self.original_rule, objs[0])[self.idx]")])
    w.ghostfn("along", ["tup[ORule]", "Obj", "int"], "Obj")
    V = {"r": "tup[ORule]", "o": "Obj", "k": "int"}
    w.axiom("along(r, o, 0): the object itself (definition)", {k: V[k] for k in "ro"}, "along(r, o, 0) == o", ["along(r, o, 0)"])
    w.axiom("one rule further (definition of along)", V, "implies(0 <= k and k < len(r) and ORule_forward_map(r[k], along(r, o, k))[0] is not None, along(r, o, k + 1) == ORule_forward_map(r[k], along(r, o, k))[0])", [["along(r, o, k)", "r[k]"]])
    w.record("EquivalencePathRule", {"rules": "tup[ORule]"}, [], src=("strategies.rule", "EquivalencePathRule"))
    w.contract(R + "EquivalencePathRule.forward_map", self_type="EquivalencePathRule", props=props, params={"obj": "Obj"}, returns=OT,
               requires=[("unary rules", "all(all(implies(0 <= k and k < len(self.rules), len(ORule_forward_map(self.rules[k], o)) == 1 and ORule_forward_map(self.rules[k], o)[0] is not None) for o in every('Obj')) for k in ints())")],
               loops={0: {"inv": [("the rules so far", "res == along(self.rules, obj, _i0)")]}},
               ensures=[("mapped along the path", "len(result) == 1 and result[0] == along(self.rules, obj, len(self.rules))")])
