"""C02: the rules put into a specification: one per label, and every label on a right hand side has one."""
from pyvc.world import World
from contracts import lib_spec

ASSUMPTIONS = [
    "find_path and __getitem__ of the equivalence database as proved under C06 (used through their contracts)",
] + lib_spec.ASSUMPTIONS


def world(repo="/repo"):
    w = World(repo)
    lib_spec.add(w, ["C02"])
    extractor(w, ["C02"])
    return w


def extractor(w, P):
    K = "tuple[int,tup[int]]"
    w.u("Strat")
    w.u("ClassDB")
    w.record("EquivalenceDB", {}, [], ghost={"root": "map[int,int]"}, src=("equiv_db", "EquivalenceDB"))
    E = "equiv_db.EquivalenceDB."
    w.contract(E + "__getitem__", self_type="EquivalenceDB", props=["C06"], trusted=True, params={"comb_class": "int"}, returns="int",
               ensures=[("representative", "result == self.root[comb_class]")], pure_result="self.root[comb_class]")
    w.contract(E + "find_path", self_type="EquivalenceDB", props=["C06"], trusted=True, params={"comb_class": "int", "other_comb_class": "int"}, returns="tup[int]",
               raises={"KeyError": "self.root[comb_class] != self.root[other_comb_class]"},
               ensures=[("from the first label", "len(result) > 0 and result[0] == comb_class"), ("to the second", "result[len(result) - 1] == other_comb_class"),
                        ("inside the class", "all(implies(0 <= i and i < len(result), self.root[result[i]] == self.root[comb_class]) for i in ints())")])
    w.record("RuleDB", {"equivdb": "EquivalenceDB", "rule_to_strategy": f"dict[{K},Strat]", "eqv_rule_to_strategy": f"dict[{K},Strat]"}, [], src=("rule_db.base", "RuleDBBase"))
    # the rule r stands for the key k: same class on the left, and every child of r is in a class of k
    w.ghostfn("covers", ["map[int,int]", K, K], "bool")
    w.axiom("covers(g, k, r): the rule r stands for the key k (definition)", {"g": "map[int,int]", "k": K, "r": K}, "covers(g, k, r) == (g[r[0]] == k[0] and len(k[1]) == len(r[1]) and all(pat(implies(0 <= i and i < len(r[1]), any(0 <= j and j < len(k[1]) and k[1][j] == g[r[1][i]] for j in ints())), r[1][i]) for i in ints()))", ["covers(g, k, r)"])
    FOUND = f"all(pat(implies(k in R, k in eqv_rules and R[k] in self.rule_to_strategy and covers(self.equivdb.root, k, R[k])), k in R) for k in every('{K}'))"
    w.contract("rule_db.base.RuleDBBase.rule_from_equivalence_rule_dict", self_type="RuleDB", props=P, params={"eqv_rules": f"list[{K}]"}, returns=f"dict[{K},{K}]", locals={"res": f"dict[{K},{K}]"},
               loops={0: {"hint": ["all(pat(implies(0 <= i and i < len(ends), any(0 <= j and j < len(eqv_ends) and eqv_ends[j] == self.equivdb.root[ends[i]] for j in ints())), ends[i]) for i in ints())", f"covers(self.equivdb.root, mk('{K}', eqv_start, eqv_ends), mk('{K}', start, ends))"], "inv": [("recorded rules for wanted keys", FOUND.replace("R", "res"))]}},
               ensures=[("recorded rules for wanted keys", FOUND.replace("R", "result"))])
    w.record("SpecificationRuleExtractor", {"ruledb": "RuleDB", "classdb": "ClassDB", "root_label": "int", "eqv_rulekeys": f"list[{K}]", "rules_dict": "dict[int,tup[int]]", "eqvparent_to_parent": "dict[int,int]"}, [],
             src=("specification_extrator", "SpecificationRuleExtractor"))
    X = "specification_extrator.SpecificationRuleExtractor."
    kw = {"self_type": "SpecificationRuleExtractor", "props": P}
    w.macro("onlhs(q)", "all(all(pat(implies(l in q.rules_dict and 0 <= i and i < len(q.rules_dict[l]), q.rules_dict[l][i] in q.rules_dict), q.rules_dict[l][i]) for i in ints()) for l in ints())")
    w.contract(X + "_no_lhs_labels", returns="set[int]",
               ensures=[("labels without a rule", "all((l in result) == (l not in self.rules_dict and (l == self.root_label or any(any(k in self.rules_dict and 0 <= i and i < len(self.rules_dict[k]) and self.rules_dict[k][i] == l for i in ints()) for k in ints()))) for l in ints())")], **kw)
    w.contract(X + "_check", may_raise={"AssertionError": "True"}, ensures=[("every label on a right hand side has a rule", "onlhs(self)"),
               ("the others are the root", "all(implies(l in self.rules_dict and l != self.root_label, any(any(k in self.rules_dict and 0 <= i and i < len(self.rules_dict[k]) and self.rules_dict[k][i] == l for i in ints()) for k in ints())) for l in ints())")], **kw)
    ne = "self.ruledb.equivdb.root"
    w.macro("rooted(q)", "all(pat(implies(e in q.eqvparent_to_parent, q.eqvparent_to_parent[e] in q.rules_dict and q.ruledb.equivdb.root[q.eqvparent_to_parent[e]] == e), e in q.eqvparent_to_parent) for e in ints())")
    w.macro("haspar(q, l)", "q.ruledb.equivdb.root[l] in q.eqvparent_to_parent")
    ALLP = ("the classes of all labels are in the tree", "haspar(self, self.root_label) and all(all(pat(implies(l in self.rules_dict and 0 <= i and i < len(self.rules_dict[l]), haspar(self, self.rules_dict[l][i])), self.rules_dict[l][i]) for i in ints()) for l in ints())")
    KEEP = ("rules of the tree kept", "all(pat(implies(l in old(self.rules_dict), l in self.rules_dict and self.rules_dict[l] == old(self.rules_dict)[l]), l in old(self.rules_dict)) for l in ints())")
    NEW = ("added rules stay in the class", "all(pat(implies(l in self.rules_dict and l not in old(self.rules_dict), len(self.rules_dict[l]) == 1 and self.ruledb.equivdb.root[self.rules_dict[l][0]] == self.ruledb.equivdb.root[l]), l in self.rules_dict) for l in ints())")
    ROOTED = ("the tree's classes have a rule", "rooted(self)")
    todo = lambda extra: "(c in self.rules_dict or (c in _dom0 and c not in _seen0)" + extra + ")"
    wait = lambda extra: "all(all(pat(implies(l in self.rules_dict and 0 <= i and i < len(self.rules_dict[l]), " + todo(extra).replace("c in", "self.rules_dict[l][i] in").replace("c not", "self.rules_dict[l][i] not").replace("c ==", "self.rules_dict[l][i] ==") + "), self.rules_dict[l][i]) for i in ints()) for l in ints())"
    base = [KEEP, NEW, ROOTED, ALLP, ("only labels of the tree's classes", "all(pat(implies(c in _dom0, haspar(self, c)), c in _dom0) for c in ints())")]
    w.contract(X + "_populate_equivalences", modifies=["self.rules_dict"], requires=[ROOTED, ALLP],
               loops={0: {"inv": base + [("labels on right hand sides have a rule or wait", wait("")), ("labels done have a rule", "all(pat(implies(c in _seen0, c in self.rules_dict), c in _seen0) for c in ints())"),
                                         ("the root has a rule or waits", todo("").replace("c in", "self.root_label in").replace("c not", "self.root_label not"))]},
                      1: {"inv": base + [("labels on right hand sides have a rule or wait", wait(" or c == path[_i1]")), ("labels done have a rule", "all(pat(implies(c in _seen0 and c != label, c in self.rules_dict), c in _seen0) for c in ints())"),
                                         ("the path so far", "all(pat(implies(0 <= m and m < _i1, path[m] in self.rules_dict), path[m]) for m in ints())"),
                                         ("the root has a rule or waits", todo(" or c == label").replace("c in", "self.root_label in").replace("c not", "self.root_label not").replace("c ==", "self.root_label =="))]}},
               ensures=[("every label on a right hand side has a rule", "onlhs(self)"), ("the root has a rule", "self.root_label in self.rules_dict"), KEEP, NEW], **kw)
    # the tree's rules
    w.u("Node")
    w.attr("Node", "rule_keys", f"list[{K}]", method=True)
    TREE = lambda ks: f"all(all(pat(implies(0 <= a and a < len({ks}) and 0 <= i and i < len({ks}[a][1]), any(0 <= b and b < len({ks}) and {ks}[b][0] == {ks}[a][1][i] for b in ints())), {ks}[a][1][i]) for i in ints()) for a in ints())"
    ROOT = lambda ks: f"any(0 <= b and b < len({ks}) and {ks}[b][0] == self.ruledb.equivdb.root[self.root_label] for b in ints())"
    recorded = f"all(pat(implies(l in self.rules_dict, mk('{K}', l, self.rules_dict[l]) in self.ruledb.rule_to_strategy), l in self.rules_dict) for l in ints())"
    members = "all(all(pat(implies(l in self.rules_dict and 0 <= i and i < len(self.rules_dict[l]), any(0 <= b and b < len(self.eqv_rulekeys) and self.eqv_rulekeys[b][0] == self.ruledb.equivdb.root[self.rules_dict[l][i]] for b in ints())), self.rules_dict[l][i]) for i in ints()) for l in ints())"
    done = lambda n: f"all(pat(implies(0 <= a and a < {n}, self.eqv_rulekeys[a][0] in self.eqvparent_to_parent), self.eqv_rulekeys[a]) for a in ints())"
    w.contract(X + "_populate_decompositions", modifies=["self.rules_dict", "self.eqvparent_to_parent"],
               requires=[("nothing yet", "all(l not in self.rules_dict and l not in self.eqvparent_to_parent for l in ints())"), ("a tree: each child class has a rule", TREE("self.eqv_rulekeys")), ("the root's class has a rule", ROOT("self.eqv_rulekeys"))],
               may_raise={"KeyError": "True"},
               loops={0: {"inv": [("recorded rules", recorded), ROOTED, ("children's classes have a rule", members), ("classes so far", done("_i0"))]}},
               ensures=[("recorded rules", recorded), ROOTED, ALLP], **kw)
    w.contract(X + "__init__", self_type="SpecificationRuleExtractor", is_init=True, props=P, params={"root_label": "int", "root_node": "Node", "ruledb": "RuleDB", "classdb": "ClassDB"},
               requires=[("a tree: each child class has a rule", TREE("Node_rule_keys(root_node)")), ("the root's class has a rule", ROOT("Node_rule_keys(root_node)").replace("self.ruledb", "ruledb").replace("self.root_label", "root_label"))],
               may_raise={"KeyError": "True", "AssertionError": "True"},
               ensures=[("every label on a right hand side has a rule", "onlhs(self)"), ("the root has a rule", "self.root_label in self.rules_dict")])
    w.u("Class")
    w.u("ORule")
    w.attr("Strat", "__call__", "ORule", args=("Class",))
    w.attr("ORule", "children", "tup[Class]")
    w.attr("ORule", "isa_Rule", "bool")
    w.attr("ORule", "to_equivalence_rule", "ORule", method=True)
    w.attr("ORule", "to_reverse_rule", "ORule", args=("int",), method=True)
    w.attr("ClassDB", "get_class", "Class", args=("int",), method=True)
    key = f"mk('{K}', parent, children)"
    rev = f"mk('{K}', children[0], T1(parent))"
    w.ghostfn("T1", ["int"], "tup[int]")
    w.axiom("T1(x): the tuple (x,) (definition)", {"x": "int"}, "len(T1(x)) == 1 and T1(x)[0] == x", ["T1(x)"])
    call = lambda d, k, l: f"Strat___call__(self.ruledb.{d}[{k}], ClassDB_get_class(self.classdb, {l}))"
    unary = lambda r: f"({r} if len(ORule_children({r})) == 1 else ORule_to_equivalence_rule({r}))"
    w.contract(X + "_missing_rule_error", trusted=True, params={"parent": "int", "children": "tup[int]"}, returns="opaque", **kw)
    w.contract(X + "_find_rule", params={"parent": "int", "children": "tup[int]"}, returns="ORule",
               raises={"ValueError": f"{key} not in self.ruledb.rule_to_strategy and (len(children) != 1 or ({key} not in self.ruledb.eqv_rule_to_strategy and {rev} not in self.ruledb.eqv_rule_to_strategy))"},
               may_raise={"AssertionError": "True"},
               ensures=[("the recorded strategy of this rule", f"implies({key} in self.ruledb.rule_to_strategy, result == {call('rule_to_strategy', key, 'parent')})"),
                        ("or the recorded equivalence", f"implies({key} not in self.ruledb.rule_to_strategy and {key} in self.ruledb.eqv_rule_to_strategy, result == {unary(call('eqv_rule_to_strategy', key, 'parent'))})"),
                        ("or the reverse of the one recorded the other way", f"implies({key} not in self.ruledb.rule_to_strategy and {key} not in self.ruledb.eqv_rule_to_strategy, result == ORule_to_reverse_rule({unary(call('eqv_rule_to_strategy', rev, 'children[0]'))}, 0))")], **kw)
