"""C05: pruning keeps exactly the greatest consistent sub-dictionary; iterative pruning derives exactly the least set.

A witness w gives each label of a candidate set S one of its recorded rules with all its children in S."""
from pyvc.world import World

ASSUMPTIONS = [
    "termination of the pruning loops is not proved",
    "rules dictionaries have no empty rule set (as RuleDBBase.rules_up_to_equivalence builds them)",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C05"]
    w.ghostfn("Z", ["set[int]", "map[int,tup[int]]"], "bool")
    w.axiom("Z marks the candidates the proofs talk about (it holds of all of them)", {"S": "set[int]", "w": "map[int,tup[int]]"}, "Z(S, w)", ["Z(S, w)"])
    w.macro("inside(t, S)", "all(pat(implies(0 <= i and i < len(t), t[i] in S), t[i]) for i in ints())")
    w.macro("cons(D, S, w)", "all(pat(implies(k in S, k in D and w[k] in D[k] and inside(w[k], S)), k in S, w[k]) for k in ints())")
    w.macro("sub(D, E)", "all(pat(implies(k in D, k in E), k in D) for k in ints()) and all(all(pat(implies(k in D and t in D[k], t in E[k]), t in D[k]) for t in every('tup[int]')) for k in ints())")
    w.macro("nonempty(D)", "all(pat(implies(k in D, any(t in D[k] for t in every('tup[int]'))), k in D) for k in ints())")
    w.macro("kept(D, E)", "all(all(pat(implies(k in E and t in E[k] and (k not in D or t not in D[k]), any(0 <= i and i < len(t) and t[i] not in D for i in ints())), t in E[k]) for t in every('tup[int]')) for k in ints())")
    w.macro("above(D, E)", "all(all(pat(implies(Z(S, w) and cons(E, S, w), all(pat(implies(k in S, k in D and w[k] in D[k]), k in S, w[k]) for k in ints())), Z(S, w)) for w in every('map[int,tup[int]]')) for S in every('set[int]'))")
    w.macro("stable(D, k)", "all(pat(implies(t in D[k], inside(t, D)), t in D[k]) for t in every('tup[int]'))")
    base = [("only recorded rules", "sub(rdict, old(rdict))"), ("removed rules miss a child", "kept(rdict, old(rdict))"), ("every consistent set is kept", "above(rdict, old(rdict))")]
    ne = ("no empty rule set", "nonempty(rdict)")
    w.contract("tree_searcher.prune", params={"rdict": "dict[int,set[tup[int]]]"}, props=P, requires=[ne], modifies=["rdict"],
               loops={0: {"inv": base + [ne, ("unchanged: all rules have their children", "changed or all(pat(implies(k in rdict, stable(rdict, k)), k in rdict) for k in ints())")]},
                      1: {"inv": base + [ne, ("keys to come", "all(pat(implies(x in _dom1 and x not in _seen1, x in rdict), x in _seen1, x in rdict) for x in ints())"),
                                        ("no new key", "all(pat(implies(x in rdict, x in _dom1), x in rdict) for x in ints())"),
                                        ("unchanged: seen rules have their children", "changed or all(pat(implies(x in _seen1, x in rdict and stable(rdict, x)), x in _seen1) for x in ints())")]},
                      2: {"let": {"D2": "rdict", "c2": "changed"}, "inv": base + [ne,
                          ("other keys kept", "all(pat(implies(x != k, (x in rdict) == (x in D2) and same(rdict[x], D2[x])), x in rdict, rdict[x]) for x in ints())"),
                          ("deleted at the end only", "k in rdict or all(pat(implies(t in _dom2, t in _seen2), t in _dom2) for t in every('tup[int]'))"),
                          ("rules to come", "all(pat(implies(t in _dom2 and t not in _seen2, k in rdict and t in rdict[k]), t in rdict[k], t in _seen2) for t in every('tup[int]'))"),
                          ("no new rule", "all(pat(implies(k in rdict and t in rdict[k], t in _dom2), t in rdict[k]) for t in every('tup[int]'))"),
                          ("unchanged", "changed or (not c2 and k in rdict and same(rdict, D2) and all(pat(implies(t in _seen2, inside(t, rdict)), t in _seen2) for t in every('tup[int]')))")]}},
               ensures=base + [ne, ("all rules have their children", "all(pat(implies(k in rdict, stable(rdict, k)), k in rdict) for k in ints())")])
    # ---- iterative pruning: the labels that can be derived bottom-up, starting from the root
    w.ghostfn("Z1", ["set[int]"], "bool")
    w.axiom("Z1 marks the candidates the proofs talk about (it holds of all of them)", {"S": "set[int]"}, "Z1(S)", ["Z1(S)"])
    w.macro("isroot(x, root)", "root is not None and x == root")
    w.macro("closed(D, root, S)", "(root is None or root in S) and all(all(pat(implies(k in D and t in D[k] and inside(t, S), k in S), t in D[k]) for t in every('tup[int]')) for k in ints())")
    w.macro("least(V, D, root)", "all(pat(implies(Z1(S) and closed(D, root, S), all(pat(implies(x in V, x in S), x in V) for x in ints())), Z1(S)) for S in every('set[int]'))")
    w.macro("ok(R, V)", "all(all(pat(implies(k in R and t in R[k], inside(t, V)), t in R[k]) for t in every('tup[int]')) for k in ints())")
    w.macro("labels(V, R, root)", "all(pat((x in V) == (x in R or isroot(x, root)), x in V, x in R) for x in ints())")
    w.macro("split(D, A, B)", "all(all(pat(implies(k in D and t in D[k], (k in A and t in A[k]) or (k in B and t in B[k])), t in D[k]) for t in every('tup[int]')) for k in ints())")
    w.macro("blocked(D, k, V)", "all(pat(implies(t in D[k], not inside(t, V)), t in D[k]) for t in every('tup[int]'))")
    ib = [("only recorded rules", "sub(new_rules_dict, rules_dict)"), ("the others are left", "sub(rdict, rules_dict) and split(rules_dict, new_rules_dict, rdict)"),
          ("no empty rule set", "nonempty(new_rules_dict)"), ("children are derived", "ok(new_rules_dict, verified_labels)"),
          ("derived labels", "labels(verified_labels, new_rules_dict, root)"), ("only derivable labels", "least(verified_labels, rules_dict, root)")]
    w.contract("tree_searcher.iterative_prune", params={"rules_dict": "dict[int,set[tup[int]]]", "root": "opt[int]"}, returns="dict[int,set[tup[int]]]", props=P,
               loops={0: {"inv": ib},
                      1: {"inv": ib + [("keys to come", "all(pat(implies(x in _dom1 and x not in _seen1, x in rdict), x in _seen1, x in rdict) for x in ints())"),
                                       ("no new key", "all(pat(implies(x in rdict, x in _dom1), x in rdict) for x in ints())"),
                                       ("unchanged: seen rules miss a child", "changed or all(pat(implies(x in _seen1 and x in rdict, blocked(rdict, x, verified_labels)), x in _seen1) for x in ints())")]},
                      2: {"let": {"D2": "rdict", "c2": "changed", "V2": "verified_labels"}, "inv": ib + [
                          ("the key", "k in rdict"), ("same keys", "all(pat((x in rdict) == (x in D2), x in rdict) for x in ints())"),
                          ("other keys kept", "all(pat(implies(x != k, same(rdict[x], D2[x])), rdict[x]) for x in ints())"),
                          ("rules to come", "all(pat(implies(t in _dom2 and t not in _seen2, t in rdict[k]), t in rdict[k], t in _seen2) for t in every('tup[int]'))"),
                          ("no new rule", "all(pat(implies(t in rdict[k], t in _dom2), t in rdict[k]) for t in every('tup[int]'))"),
                          ("unchanged", "changed or (not c2 and same(verified_labels, V2) and same(rdict, D2) and all(pat(implies(t in _seen2, not inside(t, verified_labels)), t in _seen2) for t in every('tup[int]')))")]}},
               locals={"new_rules_dict": "ddict[int,set[tup[int]]]"},
               ensures=[("only recorded rules", "sub(result, rules_dict)"), ("no empty rule set", "nonempty(result)"),
                        ("children are derived", "all(all(pat(implies(k in result and t in result[k], all(pat(implies(0 <= i and i < len(t), t[i] in result or isroot(t[i], root)), t[i]) for i in ints())), t in result[k]) for t in every('tup[int]')) for k in ints())"),
                        ("all rules whose children are derived", "all(all(pat(implies(k in rules_dict and t in rules_dict[k] and all(pat(implies(0 <= i and i < len(t), t[i] in result or isroot(t[i], root)), t[i]) for i in ints()), k in result and t in result[k]), t in rules_dict[k]) for t in every('tup[int]')) for k in ints())"),
                        ("only derivable labels", "all(pat(implies(Z1(S) and closed(rules_dict, root, S), all(pat(implies(x in result, x in S), x in result) for x in ints())), Z1(S)) for S in every('set[int]'))")])
    return w
