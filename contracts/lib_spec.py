"""Shared: the specification as a collection of rules (CombinatorialSpecification)."""

ASSUMPTIONS = ["a rule of the empty strategy is a rule of the class it is applied to"]


def add(w, props):
    w.u("Class")
    w.u("ORule")
    w.attr("Class", "is_empty", "bool", method=True)
    w.attr("ORule", "comb_class", "Class")
    w.attr("ORule", "children", "tup[Class]")
    w.record("Spec", {"root": "Class", "rules_dict": "dict[Class,ORule]", "_class_to_label": "dict[Class,int]", "_label_to_class": "dict[int,Class]"},
             [("each rule is its class's", "all(pat(implies(c in self.rules_dict, ORule_comb_class(self.rules_dict[c]) == c), c in self.rules_dict) for c in every('Class'))"),
              ("labels are 0, 1, ...", "all(pat((l in self._label_to_class) == (0 <= l and l < len(self._class_to_label)), l in self._label_to_class) for l in ints())"),
              ("one label per class", "all(pat(implies(c in self._class_to_label, self._class_to_label[c] in self._label_to_class and self._label_to_class[self._class_to_label[c]] == c), c in self._class_to_label) for c in every('Class'))"),
              ("one class per label", "all(pat(implies(l in self._label_to_class, self._label_to_class[l] in self._class_to_label and self._class_to_label[self._label_to_class[l]] == l), l in self._label_to_class) for l in ints())")],
             src=("specification", "CombinatorialSpecification"))
    S = "specification.CombinatorialSpecification."
    kw = {"self_type": "Spec", "props": props}
    w.contract(S + "get_label", params={"comb_class": "Class"}, returns="int", modifies=["self._class_to_label", "self._label_to_class"],
               ensures=[("the class's label", "comb_class in self._class_to_label and result == self._class_to_label[comb_class]"),
                        ("labels stay", "all(pat(implies(c in old(self._class_to_label), c in self._class_to_label and self._class_to_label[c] == old(self._class_to_label)[c]), c in old(self._class_to_label)) for c in every('Class'))")], **kw)
    w.contract(S + "get_comb_class", params={"label": "int"}, returns="Class", raises={"InvalidOperationError": "label not in self._label_to_class"},
               ensures=[("the class with this label", "result in self._class_to_label and self._class_to_label[result] == label")], **kw)
    w.contract(S + "__iter__", returns="list[ORule]", trusted=True,
               ensures=[("the rules", "all((has(result, r)) == any(c in self.rules_dict and self.rules_dict[c] == r for c in every('Class')) for r in every('ORule'))")], **kw)
    w.record("EmptyStrategy", {}, [], src=("strategies.strategy", "EmptyStrategy"))
    w.contract("strategies.strategy.VerificationStrategy.__call__", self_type="EmptyStrategy", props=props, trusted=True, params={"comb_class": "Class", "children": "opt[tup[Class]]"}, returns="ORule",
               ensures=[("a rule of the class", "ORule_comb_class(result) == comb_class")])
    w.contract(S + "get_rule", params={"comb_class": "Class"}, returns="ORule", modifies=["self.rules_dict"],
               may_raise={"AssertionError": "comb_class not in self.rules_dict and not Class_is_empty(comb_class)"},
               ensures=[("the class's rule", "ORule_comb_class(result) == comb_class and comb_class in self.rules_dict and self.rules_dict[comb_class] == result"),
                        ("the other rules stay", "all(pat(implies(c in old(self.rules_dict), c in self.rules_dict and self.rules_dict[c] == old(self.rules_dict)[c]), c in old(self.rules_dict)) for c in every('Class'))")], **kw)
    w.contract(S + "_is_valid_spec", returns="bool", locals={"comb_classes": "set[Class]"},
               loops={0: {"inv": [("classes of the rules so far", "all(all(pat(implies(0 <= j and j < _i0 and 0 <= i and i < len(ORule_children(_seq0[j])), ORule_children(_seq0[j])[i] in comb_classes), ORule_children(_seq0[j])[i]) for i in ints()) for j in ints())")],
                          "after": ["all(pat(implies(c in self.rules_dict, has(_seq0, self.rules_dict[c]) and 0 <= hpos(_seq0, self.rules_dict[c]) and _seq0[hpos(_seq0, self.rules_dict[c])] == self.rules_dict[c]), self.rules_dict[c]) for c in every('Class'))"]}},
               ensures=[("every class has a rule or is empty", "implies(result, all(all(pat(implies(c in self.rules_dict and 0 <= i and i < len(ORule_children(self.rules_dict[c])), ORule_children(self.rules_dict[c])[i] in self.rules_dict or Class_is_empty(ORule_children(self.rules_dict[c])[i])), ORule_children(self.rules_dict[c])[i]) for i in ints()) for c in every('Class')))")], **kw)
