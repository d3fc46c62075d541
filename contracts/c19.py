"""C19: expanding verified classes.

unexpanded_verified_classes hands out exactly the classes verified by a strategy that has a pack; expand_verified goes on
until there is none, each step being one call of expand_comb_class on such a class with its own pack, so what it
returns has none, and has the root and the counts (ghost enum) every single expansion preserves."""
from pyvc.world import World

ASSUMPTIONS = [
    "expand_comb_class: its result has the same root and the same counts and leaves the specification alone, or it raises SpecificationNotFound (bounded: a fresh search over copied rules)",
    "a verification strategy's pack() answers the same each time it is asked",
    "termination of expand_verified (a pack may verify new classes for ever) is not proved",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C19"]
    w.u("Class")
    w.u("Pack")
    w.attr("Pack", "name", "str")
    w.u("Rule")
    w.attr("Rule", "isa_VerificationRule", "bool")
    w.ghostfn("nopack", ["Rule"], "bool")
    w.attr("Rule", "pack", "Pack", method=True, raises=("nopack", "InvalidOperationError"))
    w.u("Counts")
    w.record("Spec", {"root": "Class", "rules_dict": "dict[Class,Rule]"}, [], ghost={"enum": "Counts"}, src=("specification", "CombinatorialSpecification"))
    S = "specification.CombinatorialSpecification."
    w.macro("expandable(q, c)", "c in q.rules_dict and q.rules_dict[c].isa_VerificationRule and not nopack(q.rules_dict[c])")
    kw = dict(self_type="Spec", props=P)
    w.contract(S + "unexpanded_verified_classes", yields="Class",
               loops={0: {"inv": [("only expandable classes", "all(pat(implies(0 <= m and m < len(_yield), expandable(self, _yield[m]) and _yield[m] in _seen0), _yield[m]) for m in ints())"),
                                  ("all of them so far", "all(pat(implies(c in _seen0 and expandable(self, c), any(0 <= m and m < len(_yield) and _yield[m] == c for m in ints())), c in _seen0) for c in every('Class'))")]}},
               ensures=[("only expandable classes", "all(pat(implies(0 <= m and m < len(result), expandable(self, result[m])), result[m]) for m in ints())"),
                        ("all of them", "all(pat(implies(expandable(self, c), any(0 <= m and m < len(result) and result[m] == c for m in ints())), c in self.rules_dict) for c in every('Class'))")], **kw)
    w.contract(S + "expand_comb_class", trusted=True, params={"comb_class": "Class", "pack": "Pack", "reverse": "bool", "continue_expanding_verified": "bool"}, returns="Spec",
               requires=[("a class to expand, with its pack", "expandable(self, comb_class) and pack == Rule_pack(self.rules_dict[comb_class])")],
               may_raise={"SpecificationNotFound": "True"}, ensures=[("same root and counts", "result.root == self.root and result.enum == self.enum")], **kw)
    w.contract(S + "expand_verified", returns="Spec", locals={"new_spec": "Spec"}, may_raise={"SpecificationNotFound": "True"},
               loops={0: {"inv": [("same root and counts", "new_spec.root == self.root and new_spec.enum == self.enum")]}},
               ensures=[("no class left to expand", "not any(expandable(result, c) for c in every('Class'))"), ("same root and counts", "result.root == self.root and result.enum == self.enum")], **kw)
    return w
