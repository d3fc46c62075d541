"""C04: what the searcher records.

A strategy applied to a class makes rules (made(s, c, r)).  The searcher turns each of them into exactly one record
(label of the parent, labels of the children in order, the rule), drops only rules that do not apply and rules from a class
to itself, and hands every record to the rule database; nothing else reaches it (faithful)."""
from pyvc.world import Contract, World

ASSUMPTIONS = [
    "lab(c): ClassDB.get_label gives each class one label for good (proved under C15)",
    "strategies are pure: calling one on the same class again makes the same rules; a generator's rules do not depend on what its caller records between them",
    "Rule.sanity_check (only run when debugging) changes nothing",
    "what set_empty records is what is_empty would answer (the strategies' possibly_empty flags are right)",
    "an inferral strategy makes rules with a child (the code takes children[0])",
    "RuleDB.add, CSSQueue: a history of the calls (their effect is under contract in C14, C16)",
]


def world(repo="/repo"):
    w = World(repo)
    P = ["C04"]
    T = "tup[int]"
    w.u("Class")
    w.u("Thing")  # strategies, strategy factories, rules
    w.attr("Thing", "isa_AbstractStrategy", "bool")
    w.attr("Thing", "isa_StrategyFactory", "bool")
    w.attr("Thing", "isa_AbstractRule", "bool")
    w.ghostfn("refuses", ["Thing", "Class"], "bool")
    w.ghostfn("nochildren", ["Thing"], "bool")
    w.attr("Thing", "__call__", "Thing", args=("Class",), raises=("refuses", "StrategyDoesNotApply"))
    w.attr("Thing", "__iter__", "tup[Thing]", method=True)
    w.attr("Thing", "children", "tup[Class]", raises=("nochildren", "StrategyDoesNotApply"))
    for a in ("possibly_empty", "workable", "inferrable", "ignore_parent"):
        w.attr("Thing", a, "bool")
    w.ghostfn("unchecked", ["Thing"], "bool")
    w.attr("Thing", "sanity_check", "bool", args=("int",), names=("n",), raises=("unchecked", "NotImplementedError"), method=True)
    w.attr("Thing", "comb_class", "Class")
    w.ghostfn("lab", ["Class"], "int")
    w.ghostfn("emp", ["Class"], "bool")
    w.ghostfn("labs", ["tup[Class]"], T)
    w.axiom("labs(t): the labels of the entries of t (definition)", {"t": "tup[Class]"}, "len(labs(t)) == len(t)", ["labs(t)"])
    w.axiom("labs(t): its entries", {"t": "tup[Class]", "i": "int"}, "implies(0 <= i and i < len(t), labs(t)[i] == lab(t[i]))", ["labs(t)[i]"])
    w.macro("answer(s, c)", "Thing___call__(s, c)")
    w.macro("applies(s, c)", "not refuses(s, c)")
    w.macro("one(x, c, r)", "(x.isa_AbstractRule and r == x) or (not x.isa_AbstractRule and x.isa_AbstractStrategy and applies(x, c) and r == answer(x, c))")
    w.ghostfn("made", ["Thing", "Class", "Thing"], "bool")
    w.axiom("made(s, c, r): the strategy s makes the rule r of the class c (definition)", {"s": "Thing", "c": "Class", "r": "Thing"},
            "made(s, c, r) == ((s.isa_AbstractStrategy and applies(s, c) and r == answer(s, c)) or (not s.isa_AbstractStrategy and s.isa_StrategyFactory and "
            "any(pat(0 <= i and i < len(Thing___iter__(answer(s, c))) and one(Thing___iter__(answer(s, c))[i], c, r), Thing___iter__(answer(s, c))[i]) for i in ints())))", ["made(s, c, r)"])
    S = "comb_spec_searcher.CombinatorialSpecificationSearcher."
    w.contract(S + "_rules_from_strategy", params={"comb_class": "Class", "strategy": "Thing"}, yields="Thing", props=P, may_raise={"InvalidOperationError": "True"},
               requires=[("a factory answers", "implies(strategy.isa_StrategyFactory and not strategy.isa_AbstractStrategy, applies(strategy, comb_class))")],
               loops={0: {"inv": [("only made rules", "all(pat(implies(0 <= m and m < len(_yield), made(strategy, comb_class, _yield[m])), _yield[m]) for m in ints())"),
                                  ("all rules so far", "all(pat(all(implies(0 <= i and i < _i0 and one(_seq0[i], comb_class, r), any(0 <= m and m < len(_yield) and _yield[m] == r for m in ints())) for r in every('Thing')), _seq0[i]) for i in ints())")]}},
               ensures=[("only made rules", "all(pat(implies(0 <= m and m < len(result), made(strategy, comb_class, result[m])), result[m]) for m in ints())"),
                        ("all of them", "all(pat(implies(made(strategy, comb_class, r), any(0 <= m and m < len(result) and result[m] == r for m in ints())), made(strategy, comb_class, r)) for r in every('Thing'))")])
    TR = "tuple[int,tup[int],Thing]"
    w.record("ClassDB", {}, [], src=("class_db", "ClassDB"))
    w.contract("class_db.ClassDB.get_label", self_type="ClassDB", props=["C15"], trusted=True, params={"key": "Class"}, returns="int", pure_result="lab(key)")
    w.ghostfn("cls", ["int"], "Class")
    w.axiom("cls(l): ClassDB.get_class, which undoes get_label (C15)", {"c": "Class"}, "cls(lab(c)) == c", ["lab(c)"])
    w.contract("class_db.ClassDB.get_class", self_type="ClassDB", props=["C15"], trusted=True, params={"key": "int"}, returns="Class", pure_result="cls(key)")
    w.contract("class_db.ClassDB.is_empty", self_type="ClassDB", props=["C15"], trusted=True, params={"comb_class": "Class", "label": "opt[int]"}, returns="bool",
               requires=[("the label of the class", "label is None or label == lab(comb_class)")], pure_result="emp(comb_class)")
    w.contract("class_db.ClassDB.set_empty", self_type="ClassDB", props=["C15"], trusted=True, params={"key": "int", "empty": "bool"})
    w.nt("WorkPacket", [("label", "int"), ("strategies", "tup[Thing]"), ("inferral", "bool")], src=("typing", "WorkPacket"))
    w.ghostfn("known", ["int"], "bool")
    w.axiom("lab(cls(l)): labels the class database has given (C15)", {"l": "int"}, "implies(known(l), lab(cls(l)) == l)", ["cls(l)"])
    w.record("DefaultQueue", {}, [], src=("class_queue", "DefaultQueue"), ghost={"handed": "set[WorkPacket]", "dry": "bool", "added": "set[int]", "stopped": "set[int]", "noinf": "set[int]"})
    for f, g in (("add", "added"), ("set_stop_yielding", "stopped"), ("set_not_inferrable", "noinf")):
        w.contract("class_queue.DefaultQueue." + f, self_type="DefaultQueue", props=["C16"], trusted=True, params={"label": "int"}, modifies=["self." + g],
                   ensures=[("recorded", f"all(pat((l in self.{g}) == (l in old(self.{g}) or l == label), l in self.{g}, l in old(self.{g})) for l in ints())")])
    w.contract("class_queue.DefaultQueue.__next__", self_type="DefaultQueue", props=["C16"], trusted=True, returns="WorkPacket", modifies=["self.handed", "self.dry"], may_raise={"StopIteration": "True"},
               exc_ensures=[("nothing left", "self.dry"), ("nothing handed out", "all(pat((x in self.handed) == (x in old(self.handed)), x in self.handed) for x in every('WorkPacket'))")],
               ensures=[("a label that was added", "known(result.label)"), ("something left", "not self.dry"), ("recorded", "all(pat((x in self.handed) == (x in old(self.handed) or x == result), x in self.handed, x in old(self.handed)) for x in every('WorkPacket'))")])
    w.externs["time.time"] = Contract("time.time", params={}, returns="opaque")
    w.record("RuleDB", {}, [], src=("rule_db.base", "RuleDBBase"), ghost={"hist": f"set[{TR}]", "ver": "set[int]", "found": "bool"})
    w.contract("rule_db.base.RuleDBBase.add", self_type="RuleDB", props=["C14"], trusted=True, params={"start": "int", "ends": T, "rule": "Thing"}, modifies=["self.hist", "self.ver", "self.found"],
               ensures=[("recorded", f"all(pat((x in self.hist) == (x in old(self.hist) or x == mk('{TR}', start, ends, rule)), x in self.hist, x in old(self.hist)) for x in every('{TR}'))"),
                        ("verified stays", "all(pat(implies(l in old(self.ver), l in self.ver), l in old(self.ver)) for l in ints())")])
    w.contract("rule_db.base.RuleDBBase.is_verified", self_type="RuleDB", props=["C06"], trusted=True, params={"label": "int"}, returns="bool", pure_result="label in self.ver")
    w.record("Searcher", {"debug": "bool", "expand_verified": "bool", "classdb": "ClassDB", "classqueue": "DefaultQueue", "ruledb": "RuleDB", "verification_strategies": "tup[Thing]", "symmetries": "tup[Thing]",
                          "tried_to_verify": "set[int]", "symmetry_expanded": "set[int]", "inferral_expanded": "set[int]", "func_calls": "opaque", "func_times": "opaque", "func_yield": "opaque"},
             [("factories answer", "all(all(pat(implies(s.isa_StrategyFactory and not s.isa_AbstractStrategy, applies(s, c)), refuses(s, c)) for s in every('Thing')) for c in every('Class'))")],
             src=("comb_spec_searcher", "CombinatorialSpecificationSearcher"))
    w.ghostfn("keep", ["Thing", "Class", "Thing"], "bool")
    w.axiom("keep(s, c, r): a made rule that applies and is not from the class to itself (definition)", {"s": "Thing", "c": "Class", "r": "Thing"},
            "keep(s, c, r) == (made(s, c, r) and not nochildren(r) and not (len(r.children) == 1 and r.comb_class == r.children[0]))", ["keep(s, c, r)"])
    w.macro("rec(x)", "x[0] == lab(x[2].comb_class) and x[1] == labs(x[2].children)")
    ONLY = lambda L, s: f"all(pat(implies(0 <= m and m < len({L}), keep({s}, comb_class, {L}[m][2]) and rec({L}[m])), {L}[m]) for m in ints())"
    kw = dict(self_type="Searcher", props=P)
    w.contract(S + "_expand_class_with_strategy", params={"comb_class": "Class", "strategy_generator": "Thing", "label": "opt[int]", "initial": "bool"}, yields=TR, may_raise={"InvalidOperationError": "True"},
               requires=[("the label of the class", "label is None or label == lab(comb_class)")],
               loops={0: {"inv": [("only rules that are made", ONLY("_yield", "strategy_generator")),
                                  ("all rules so far", "all(pat(implies(0 <= i and i < _i0 and keep(strategy_generator, comb_class, _seq0[i]), any(0 <= m and m < len(_yield) and _yield[m][2] == _seq0[i] for m in ints())), _seq0[i]) for i in ints())")]}},
               ensures=[("only rules that are made", ONLY("result", "strategy_generator")),
                        ("all of them", "all(pat(implies(keep(strategy_generator, comb_class, r), any(0 <= m and m < len(result) and result[m][2] == r for m in ints())), keep(strategy_generator, comb_class, r)) for r in every('Thing'))")], **kw)
    w.ghostfn("kept", ["Thing"], "bool")
    w.axiom("kept(r): some strategy makes r, and r applies (only this direction)", {"s": "Thing", "c": "Class", "r": "Thing"}, "implies(keep(s, c, r), kept(r))", ["keep(s, c, r)"])
    w.axiom("kept rules have children", {"r": "Thing"}, "implies(kept(r), not nochildren(r))", ["kept(r)"])
    w.macro("inh(q, r)", f"mk('{TR}', lab(r.comb_class), labs(r.children), r) in q.hist")
    INV = ("only rules made by strategies, with their labels", f"all(pat(implies(x in self.ruledb.hist, kept(x[2]) and rec(x)), x in self.ruledb.hist) for x in every('{TR}'))")
    sets = [("ruledb.hist", TR), ("ruledb.ver", "int"), ("classqueue.added", "int"), ("classqueue.stopped", "int"), ("classqueue.noinf", "int"), ("tried_to_verify", "int"), ("symmetry_expanded", "int")]
    MON = [("nothing is forgotten: " + f, f"all(pat(implies(x in old(self.{f}), x in self.{f}), x in old(self.{f})) for x in every('{t}'))") for f, t in sets]
    mods = ["self." + f for f, _ in sets] + ["self.ruledb.found"]
    LAB = ("the label of the class", "label == lab(comb_class)")
    ck = dict(modifies=mods, may_raise={"InvalidOperationError": "True"}, **kw)
    DONE = lambda s: f"all(pat(implies(keep({s}, comb_class, r), inh(self.ruledb, r)), keep({s}, comb_class, r)) for r in every('Thing'))"
    upto = lambda n: f"all(pat(implies(0 <= i and i < {n}, end_labels[i] in self.tried_to_verify and (not rule.workable or end_labels[i] in self.classqueue.added) and (rule.inferrable or end_labels[i] in self.classqueue.noinf) and (len(self.symmetries) == 0 or end_labels[i] in self.symmetry_expanded)), end_labels[i]) for i in ints())"
    SYM1 = ("symmetries have one child", "all(pat(implies(0 <= i and i < len(self.symmetries), all(all(pat(implies(keep(self.symmetries[i], c, r), len(r.children) == 1), keep(self.symmetries[i], c, r)) for r in every('Thing')) for c in every('Class'))), self.symmetries[i]) for i in ints())")
    w.contract(S + "add_rule", params={"start_label": "int", "end_labels": T, "rule": "Thing"},
               requires=[("a rule some strategy made, with its labels", "kept(rule) and start_label == lab(rule.comb_class) and end_labels == labs(rule.children)"), INV, SYM1],
               loops={0: {"inv": [INV, ("children so far", upto("_i0"))] + MON}},
               ensures=[INV, ("the rule is recorded", "inh(self.ruledb, rule)"), ("every child is tried, queued and marked as the rule says", upto("len(end_labels)")),
                        ("the parent stops if the rule says so", "implies(rule.ignore_parent, start_label in self.classqueue.stopped)")] + MON, **ck)
    VER = lambda n: f"all(pat(implies(0 <= i and i < {n}, {DONE('self.verification_strategies[i]')}), self.verification_strategies[i]) for i in ints())"
    w.contract(S + "try_verify", params={"comb_class": "Class", "label": "int"}, requires=[LAB, INV, SYM1],
               loops={0: {"inv": [INV, ("strategies so far", VER("_i0")), ("tried", "label in self.tried_to_verify")] + MON},
                      1: {"inv": [INV, ("rules so far", f"all(pat(implies(0 <= m and m < _i1, inh(self.ruledb, _seq1[m][2])), _seq1[m]) for m in ints())"), ("strategies so far", VER("_i0")), ("tried", "label in self.tried_to_verify")] + MON}},
               ensures=[INV, ("tried", "label in self.tried_to_verify"), ("verified or every verification strategy was applied", "implies(label not in old(self.tried_to_verify) and not emp(comb_class), label in self.ruledb.ver or " + VER("len(self.verification_strategies)") + ")")] + MON, **ck)
    SYM = lambda n: f"all(pat(implies(0 <= i and i < {n}, {DONE('self.symmetries[i]')}), self.symmetries[i]) for i in ints())"
    w.contract(S + "_symmetry_expand", params={"comb_class": "Class", "label": "int"}, requires=[LAB, INV, SYM1], locals={"sym_labels": "set[int]"},
               loops={0: {"inv": [INV, ("strategies so far", SYM("_i0")), ("label", "label in sym_labels")] + MON},
                      1: {"inv": [INV, ("rules so far", f"all(pat(implies(0 <= m and m < _i1, inh(self.ruledb, _seq1[m][2])), _seq1[m]) for m in ints())"), ("strategies so far", SYM("_i0")), ("label", "label in sym_labels")] + MON}},
               ensures=[INV, ("expanded", "label in self.symmetry_expanded"), ("every symmetry was applied", SYM("len(self.symmetries)"))] + MON, **ck)
    STR = lambda n: f"all(pat(implies(0 <= i and i < {n}, {DONE('strategies[i]')}), strategies[i]) for i in ints())"
    inf = dict(ck)
    inf["modifies"] = mods + ["self.inferral_expanded"]
    MONI = MON + [("nothing is forgotten: inferral_expanded", "all(pat(implies(x in old(self.inferral_expanded), x in self.inferral_expanded), x in old(self.inferral_expanded)) for x in ints())"), ]
    w.contract(S + "_expand", params={"comb_class": "Class", "label": "int", "strategies": "tup[Thing]", "inferral": "bool"}, requires=[LAB, INV, SYM1],
               loops={0: {"inv": [INV, ("strategies so far", STR("_i0"))] + MON},
                      1: {"inv": [INV, ("rules so far", f"all(pat(implies(0 <= m and m < _i1, inh(self.ruledb, _seq1[m][2])), _seq1[m]) for m in ints())"), ("strategies so far", STR("_i0"))] + MON}},
               ensures=[INV, ("every strategy was applied", "inferral or " + STR("len(strategies)")), ("inferral: expanded", "implies(inferral, label in self.inferral_expanded)")] + MONI, **inf)
    w.contract(S + "_inferral_expand", params={"comb_class": "Class", "label": "int", "inferral_strategies": "tup[Thing]", "skip": "opt[Thing]"}, requires=[LAB, INV, SYM1],
               loops={0: {"inv": [INV, ("entered", "label in self.inferral_expanded")] + MONI}, 1: {"assume": ["all(pat(implies(0 <= m and m < len(_seq1), len(_seq1[m][2].children) >= 1), _seq1[m]) for m in ints())"], "inv": [INV, ("entered", "label in self.inferral_expanded")] + MONI}},
               ensures=[INV, ("inferral expanded", "label in self.inferral_expanded"), ("not inferrable any more", "label in old(self.inferral_expanded) or label in self.classqueue.noinf")] + MONI, **inf)
    w.contract(S + "_log_status", self_type="Searcher", trusted=True, props=P, params={"start_time": "opaque", "status_update": "int"})
    w.macro("dealt(q, x)", "(q.expand_verified == False and x.label in q.ruledb.ver) or (x.inferral and x.label in q.inferral_expanded) or (not x.inferral and "
            "all(pat(implies(0 <= i and i < len(x.strategies), all(pat(implies(keep(x.strategies[i], cls(x.label), r), inh(q.ruledb, r)), keep(x.strategies[i], cls(x.label), r)) for r in every('Thing'))), x.strategies[i]) for i in ints()))")
    HAND = ("every packet taken from the queue is dealt with", "all(pat(implies(x in self.classqueue.handed and x not in old(self.classqueue.handed), dealt(self, x)), x in self.classqueue.handed) for x in every('WorkPacket'))")
    ecf = dict(inf, props=P + ["C17"])
    ecf["modifies"] = inf["modifies"] + ["self.classqueue.handed", "self.classqueue.dry"]
    w.contract(S + "_expand_classes_for", params={"expansion_time": "opaque", "status_update": "opt[int]", "status_start": "opaque", "auto_search_start": "opaque"}, returns="tuple[bool,opaque]",
               requires=[INV, SYM1], locals={"last_label": "opt[int]", "comb_class": "Class"},
               loops={0: {"inv": [INV, HAND, ("the class of the last label", "last_label is None or (comb_class == cls(last_label) and lab(comb_class) == last_label)"), ("stopped only when nothing is left", "_more0 or self.classqueue.dry"), ("expanding", "expanding")] + MONI}},
               ensures=[INV, HAND, ("an exhausted queue, and nothing else, ends the search", "result[0] == (not self.classqueue.dry)")] + MONI, **ecf)
    w.contract("rule_db.base.RuleDBBase.has_specification", self_type="RuleDB", props=["C05"], trusted=True, returns="bool", pure_result="self.found")
    w.contract("rule_db.base.RuleDBBase.get_specification_rules", self_type="RuleDB", props=["C02"], trusted=True, params={"smallest": "bool", "minimization_time_limit": "opaque"}, returns="tup[Thing]",
               requires=[("there is a specification", "self.found")])
    srch = dict(ecf)
    srch["may_raise"] = {"InvalidOperationError": "True", "SpecificationNotFound": "True", "ExceededMaxtimeError": "max_expansion_time is not None"}
    w.contract(S + "_auto_search_rules", params={"max_expansion_time": "opt[opaque]", "perc": "int", "smallest": "bool", "status_update": "opt[int]"}, returns="tup[Thing]",
               requires=[INV, SYM1], locals={"expansion_time": "opaque", "status_start": "opaque"},
               loops={0: {"inv": [INV, HAND, ("gives up only when nothing is left and nothing found", "expanding or (self.classqueue.dry and not self.ruledb.found)")] + MONI}},
               ensures=[INV, HAND, ("there is a specification", "self.ruledb.found")] + MONI,
               exc_ensures=[("out of time: every packet taken is dealt with", f"implies(_exc == 'ExceededMaxtimeError', {HAND[1]})"), ("out of time: only rules made by strategies", f"implies(_exc == 'ExceededMaxtimeError', {INV[1]})"),
                            ("not found: nothing left to do, no specification", "implies(_exc == 'SpecificationNotFound', self.classqueue.dry and not self.ruledb.found)")], **srch)
    return w
