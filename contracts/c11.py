"""C11: the rules the forest database extracts are a minimal productive subset.

P(S) says that the start label is productive in a set S of rule keys: TableMethod.is_pumping, which C03 proves to be the
least fixed point of the added rules; that it grows with S is the one fact assumed about it.  "pumps(X)" below is said as
"every set that contains X pumps", "dead(X)" as "no set inside X pumps"."""
from pyvc.world import Contract, World

ASSUMPTIONS = [
    "TableMethod: is_pumping depends on the set of added rule keys only and more rules pump more labels (the least fixed point, C03)",
    "for every part S of the added rules U: what S pumps, the rules of S between classes that U pumps also pump (the argument is in DESIGN.md; bounded check of C11 covers it)",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C11"]
    K = "ForestRuleKey"
    w.nt(K, [("parent", "int"), ("children", "tup[int]"), ("shifts", "tup[int]"), ("bucket", "str")], src=("typing", "ForestRuleKey"))
    w.ghostfn("pump", [f"set[{K}]", "int"], "bool")
    w.axiom("more rules pump more labels", {"S": f"set[{K}]", "T": f"set[{K}]", "l": "int"},
            "implies(pump(S, l) and not pump(T, l), any(y in S and y not in T for y in every('ForestRuleKey')))", [("pump(S, l)", "pump(T, l)")])
    w.record("TableMethod", {}, [], src=("rule_db.forest", "TableMethod"), ghost={"keys": f"set[{K}]"})
    w.externs["platform.python_implementation"] = Contract("platform.python_implementation", returns="str")
    w.externs["gc.collect_step"] = Contract("gc.collect_step", returns="opaque")
    T = "rule_db.forest.TableMethod."
    tk = dict(self_type="TableMethod", props=["C03"], trusted=True)
    w.contract(T + "__init__", is_init=True, ghost_updates={"self.keys": f"setof('{K}', lambda k: False)"}, ensures=[("no rule yet", f"all(y not in self.keys for y in every('{K}'))")], **tk)
    w.contract(T + "add_rule_key", params={"rule_key": K}, modifies=["self.keys"],
               ensures=[("one more rule", f"all(pat((y in self.keys) == (y in old(self.keys) or y == rule_key), y in self.keys, y in old(self.keys)) for y in every('{K}'))")], **tk)
    w.contract(T + "is_pumping", params={"label": "int"}, returns="bool", pure_result="pump(self.keys, label)", **tk)
    w.record("Extractor", {"root_label": "int", "rule_by_bucket": f"dict[str,list[{K}]]", "needed_rules": f"list[{K}]", "pack": "opaque", "classdb": "opaque"}, [], src=("rule_db.forest", "ForestRuleExtractor"))
    w.axiom("has(L, y): some position of L holds y", {"L": f"list[{K}]", "m": "int"}, "implies(0 <= m and m < len(L), has(L, L[m]))", ["L[m]"])
    w.axiom("has(L, y): hpos says which", {"L": f"list[{K}]", "y": K}, "implies(has(L, y), 0 <= hpos(L, y) and hpos(L, y) < len(L) and L[hpos(L, y)] == y)", ["has(L, y)"])
    w.macro("first(y, L, n)", "any(0 <= m and m < n and L[m] == y for m in ints())")
    w.macro("others(D, y, key)", "any(pat(k != key and k in D and has(D[k], y), has(D[k], y)) for k in every('str'))")
    w.macro("anywhere(q, y)", "any(pat(k in q.rule_by_bucket and has(q.rule_by_bucket[k], y), has(q.rule_by_bucket[k], y)) for k in every('str'))")
    X = "rule_db.forest.ForestRuleExtractor."
    kw = dict(self_type="Extractor", props=P)

    def pumps(cond, q="self"):
        return f"all(pat(implies(all(implies({cond}, y in S) for y in every('{K}')), pump(S, {q}.root_label)), pump(S, {q}.root_label)) for S in every('set[{K}]'))"

    def dead(cond, q="self"):
        return f"all(pat(implies(all(implies(y in S, {cond}) for y in every('{K}')), not pump(S, {q}.root_label)), pump(S, {q}.root_label)) for S in every('set[{K}]'))"

    def minimal(cond):
        "no rule of needed_rules can be left out"
        return f"all(all(pat(implies(has(self.needed_rules, x) and all(implies(y in S, y != x and ({cond})) for y in every('{K}')), " \
               f"not pump(S, self.root_label)), (pump(S, self.root_label), has(self.needed_rules, x))) for x in every('{K}')) for S in every('set[{K}]'))"

    def sub(a, b):
        return f"all(pat(implies({a}, {b}), {a}) for y in every('{K}'))"

    w.contract(X + "_is_productive", params={"rule_keys": f"list[{K}]"}, returns="bool",
               loops={0: {"inv": [("no other keys", sub("y in ruledb.keys", "has(rule_keys, y)")), ("the keys so far", "all(pat(implies(0 <= m and m < _i0, rule_keys[m] in ruledb.keys), rule_keys[m]) for m in ints())")]}},
               ensures=[("yes: the given rules pump the root", "implies(result, " + pumps("has(rule_keys, y)") + ")"), ("no: they do not", "implies(not result, " + dead("has(rule_keys, y)") + ")")], **kw)
    N, M = "has(self.needed_rules, y)", "has(maybe_useful, y)"
    O, MI, OLD = "others(old(self.rule_by_bucket), y, key)", "has(minimizing, y)", "has(old(self.rule_by_bucket)[key], y)"
    tot0 = f"{N} or anywhere(self, y)"
    SAMEO = ("the other buckets are as before", "all(pat(implies(k != key, same(self.rule_by_bucket[k], old(self.rule_by_bucket)[k])), self.rule_by_bucket[k], old(self.rule_by_bucket)[k]) for k in every('str')) and "
             "all(pat(implies(k != key, (k in self.rule_by_bucket) == (k in old(self.rule_by_bucket))), k in self.rule_by_bucket, k in old(self.rule_by_bucket)) for k in every('str')) and key in self.rule_by_bucket")
    FROM = ("candidates are from the bucket", sub(M, OLD))
    ONLY = dead("has(old(self.needed_rules), y) or others(old(self.rule_by_bucket), y, key)")
    KEPT = ("needed rules are kept", sub("has(old(self.needed_rules), y)", N))
    NEW = ("new needed rules are from the bucket", sub(N, f"has(old(self.needed_rules), y) or {OLD}"))
    NOTB = ("no candidate unless one is needed", "len(maybe_useful) == 0 or " + ONLY)
    USED = ("rules of the bucket only if needed", f"({sub(N, 'has(old(self.needed_rules), y)')}) or " + ONLY)
    EMPTY = ("the bucket is empty", "len(self.rule_by_bucket[key]) == 0")
    w.contract(X + "_minimize_key", params={"key": "str"}, modifies=["self.rule_by_bucket", "self.needed_rules"],
               locals={"maybe_useful": f"list[{K}]"},
               requires=[("the bucket", "key in self.rule_by_bucket"), ("all rules pump the root", pumps(tot0)), ("needed rules cannot be left out", minimal(tot0))],
               loops={0: {"decr": "len(minimizing)", "inv": [SAMEO, ("the rules left pump the root", pumps(f"{N} or {M} or {O} or {MI}")), ("needed rules as before", "same(self.needed_rules, old(self.needed_rules))"), ("rules left are from the bucket", sub(MI, OLD)), FROM, NOTB],
                          "hint": [sub("y in tb.keys", f"{N} or {M} or {O} or {MI}")]},
                      1: {"inv": [("no other keys", sub("y in tb.keys", "has(_seq1, y)")), ("the keys so far", "all(pat(implies(0 <= m and m < _i1, _seq1[m] in tb.keys), _seq1[m]) for m in ints())")],
                          "after": [sub("y in tb.keys", f"{N} or {M} or {O}"), sub(N, "y in tb.keys"), sub(M, "y in tb.keys"),
                                    f"all(all(pat(implies(k != key and k in old(self.rule_by_bucket) and has(old(self.rule_by_bucket)[k], y), y in tb.keys), has(old(self.rule_by_bucket)[k], y)) for k in every('str')) for y in every('{K}'))"]},
                      2: {"let": {"B2": "tb.keys"}, "inv": [("no other keys", sub("y in tb.keys", "y in B2 or first(y, minimizing, _i2)")),
                                  ("the keys so far", "all(pat(implies(0 <= m and m < _i2, minimizing[m] in tb.keys), minimizing[m]) for m in ints()) and " + sub("y in B2", "y in tb.keys")),
                                  ("not yet", "not pump(tb.keys, self.root_label)")]},
                      3: {"let": {"M3": "minimizing"}, "inv": [SAMEO, ("popped", "len(minimizing) == len(M3) - _i3"), ("the rest is kept", "all(pat(implies(0 <= m and m < len(minimizing), minimizing[m] == M3[m]), minimizing[m], M3[m]) for m in ints())")],
                          "after": [sub(MI, "has(M3, y)")]},
                      4: {"decr": "len(maybe_useful)", "inv": [SAMEO, EMPTY, ("the rules left pump the root", pumps(f"{N} or {M} or {O}")), ("needed rules cannot be left out", minimal(f"{N} or {M} or {O}")), KEPT, NEW, FROM, NOTB, USED]}},
               ensures=[SAMEO, EMPTY, ("the rules left pump the root", pumps(tot0)), ("needed rules cannot be left out", minimal(tot0)), KEPT, NEW, USED], **kw)
    B = ["RuleBucket.REVERSE", "RuleBucket.NORMAL", "RuleBucket.EQUIV", "RuleBucket.VERIFICATION"]
    w.macro("fourkeys(d)", " and ".join(f"'{b}' in d" for b in B) + " and all(pat(implies(k in d, " + " or ".join(f"k == '{b}'" for b in B) + "), k in d) for k in every('str'))")
    w.macro("fourbuckets(q)", "fourkeys(q.rule_by_bucket)")
    REV = [("extracted rules are among the given ones", sub(N, " or ".join(f"has(old(self.rule_by_bucket)['{b}'], y)" for b in B))), ("extracted rules pump the root", pumps(N)), ("no extracted rule can be left out", minimal(N)),
           ("reverse rules only if needed", "(" + sub(N, "others(old(self.rule_by_bucket), y, 'RuleBucket.REVERSE')") + ") or " + dead("others(old(self.rule_by_bucket), y, 'RuleBucket.REVERSE')"))]
    w.contract(X + "_minimize", modifies=["self.rule_by_bucket", "self.needed_rules"], requires=[("the buckets", "fourbuckets(self)"), ("all rules pump the root", pumps("anywhere(self, y)")), ("nothing extracted yet", "len(self.needed_rules) == 0")],
               ensures=REV, **kw)
    w.ghostfn("stab", [f"set[{K}]"], f"set[{K}]")
    w.ghostfn("meet", [f"set[{K}]", f"set[{K}]"], f"set[{K}]")
    w.axiom("meet(S, T): the common rules (definition)", {"S": f"set[{K}]", "T": f"set[{K}]", "y": K}, "(y in meet(S, T)) == (y in S and y in T)", ["y in meet(S, T)"])
    w.axiom("stab(U), the rules between classes U pumps, suffices for what any part of U pumps", {"S": f"set[{K}]", "U": f"set[{K}]", "l": "int"},
            f"implies(pump(S, l), pump(meet(S, stab(U)), l) or any(y in S and y not in U for y in every('{K}')))", [("pump(S, l)", "stab(U)")])
    w.axiom("stab(U) is part of U", {"U": f"set[{K}]", "y": K}, "implies(y in stab(U), y in U)", ["y in stab(U)"])
    w.contract(T + "pumping_subuniverse", returns=f"list[{K}]", self_type="TableMethod", props=["C03"], trusted=True, ensures=[("the rules between pumping classes", f"all(pat(has(result, y) == (y in stab(self.keys)), has(result, y), y in stab(self.keys)) for y in every('{K}'))")])
    HAS = "all(all(pat(implies(k in res, has(res[k], y) == (first(y, _seq0, _i0) and y.bucket == k)), has(res[k], y)) for k in every('str')) for y in every('ForestRuleKey'))"
    SORTED = lambda d, t: f"all(all(pat(implies(k in {d}, has({d}[k], y) == (y in stab({t}.keys) and y.bucket == k)), has({d}[k], y)) for k in every('str')) for y in every('{K}'))"
    w.contract(X + "_sorted_stable_rules", params={"ruledb": "TableMethod"}, returns=f"dict[str,list[{K}]]", may_raise={"RuntimeError": "True"}, locals={"res": f"dict[str,list[{K}]]"},
               loops={0: {"inv": [("the four buckets", "fourkeys(res)"), ("every rule is in the list of its bucket", HAS), ("every bucket has a list", f"all(pat(implies(0 <= m and m < _i0, _seq0[m].bucket in res), _seq0[m]) for m in ints())")]}},
               ensures=[("the four buckets", "fourkeys(result)"), ("the rules of the stable universe by bucket", SORTED("result", "ruledb")),
                        ("none is left out", f"all(pat(implies(y in stab(ruledb.keys), y.bucket in result and has(result[y.bucket], y)), y in stab(ruledb.keys)) for y in every('{K}'))")], **kw)
    w.record("RuleDBForest", {"table_method": "TableMethod"}, [], src=("rule_db.forest", "RuleDBForest"))
    REVERSE = "y.bucket == 'RuleBucket.REVERSE'"
    w.contract(X + "__init__", is_init=True, params={"root_label": "int", "ruledb": "RuleDBForest", "classdb": "opaque", "pack": "opaque"}, may_raise={"RuntimeError": "True"},
               requires=[("the database reports a specification", "pump(ruledb.table_method.keys, root_label)"), ("buckets are the four kinds", "all(pat(implies(y in ruledb.table_method.keys, " + " or ".join(f"y.bucket == '{b}'" for b in B) + f"), y in ruledb.table_method.keys) for y in every('{K}'))")],
               ensures=[("extracted rules were inserted", sub(N, "y in ruledb.table_method.keys")), ("extracted rules pump the root", pumps(N)), ("no extracted rule can be left out", minimal(N)),
                        ("reverse rules only if needed", "(" + sub(N, "not (" + REVERSE + ")") + ") or " + dead("y in ruledb.table_method.keys and not (" + REVERSE + ")")), ("the root", "self.root_label == root_label")], **kw)
    w.contract(X + "check", may_raise={"AssertionError": "True"},
               ensures=[("one rule per parent", "all(all(pat(implies(0 <= m and m < n and n < len(self.needed_rules), self.needed_rules[m].parent != self.needed_rules[n].parent), (self.needed_rules[m], self.needed_rules[n])) for n in ints()) for m in ints())"),
                        ("the rules pump the root", pumps(N))], **kw)
    return w
