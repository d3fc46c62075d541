"""C14: the two rule databases record the same rules.

kd(q), ke(q): the keys in rule_to_strategy and in eqv_rule_to_strategy.  The database that forgets strategies keeps the
flattened keys only (flat), one to one.  RuleDBBase.add has the same contract for both, so both record the same keys,
the same equivalences and the same verified labels after the same rules; what is read from them (contains, iteration,
rules up to equivalence) is a function of those."""
from pyvc.world import Contract, World

ASSUMPTIONS = [
    "the database is linked: classdb and searcher are those given to link_searcher",
    "ClassDB.is_empty answers as proved under C15; CSSQueue.set_stop_yielding, EquivalenceDB edges and set_verified act as proved under C16, C06 (here: a history of the calls)",
    "MutableMapping.pop(key, None) removes the key if it is there (collections.abc)",
]
K = "tuple[int,tup[int]]"


def world(repo="/repo", opaque=False):
    w = World(repo)
    P = ["C14", "C04"]
    w.u("Class")
    w.u("Strat")
    w.u("Rule")
    w.attr("Rule", "children", "tup[Class]")
    w.attr("Rule", "possibly_empty", "bool")
    w.attr("Rule", "strategy", "Strat")
    w.attr("Rule", "is_two_way", "bool", method=True)
    w.attr("Rule", "isa_VerificationRule", "bool")
    w.ghostfn("emp", ["Class"], "bool")
    w.record("ClassDB", {}, [], src=("class_db", "ClassDB"))
    w.contract("class_db.ClassDB.is_empty", self_type="ClassDB", props=["C15"], trusted=True, params={"comb_class": "Class", "label": "opt[int]"}, returns="bool", pure_result="emp(comb_class)")
    w.record("CSSQueue", {}, [], src=("class_queue", "CSSQueue"), ghost={"stopped": "set[int]"})
    w.contract("class_queue.CSSQueue.set_stop_yielding", self_type="CSSQueue", props=["C16"], trusted=True, params={"label": "int"}, modifies=["self.stopped"], ensures=[("stopped", "all(pat((l in self.stopped) == (l in old(self.stopped) or l == label), l in self.stopped, l in old(self.stopped)) for l in ints())")])
    w.record("Searcher", {"classqueue": "CSSQueue", "classdb": "ClassDB"}, [], src=("comb_spec_searcher", "CombinatorialSpecificationSearcher"))
    E2 = "tuple[int,int]"
    w.record("EquivalenceDB", {}, [], src=("equiv_db", "EquivalenceDB"), ghost={"root": "map[int,int]", "two": f"set[{E2}]", "one": f"set[{E2}]", "ver": "set[int]"})
    ek = dict(self_type="EquivalenceDB", props=["C06"], trusted=True)
    E = "equiv_db.EquivalenceDB."
    more = lambda f, x, t: [("recorded", f"all(pat((x in self.{f}) == (x in old(self.{f}) or x == {x}), x in self.{f}, x in old(self.{f})) for x in every('{t}'))")]
    w.contract(E + "add_two_way_edge", params={"label": "int", "other_label": "int"}, modifies=["self.two", "self.root"], ensures=more("two", f"mk('{E2}', label, other_label)", E2), **ek)
    w.contract(E + "add_one_way_edge", params={"label": "int", "other_label": "int"}, modifies=["self.one", "self.root"], ensures=more("one", f"mk('{E2}', label, other_label)", E2), **ek)
    w.contract(E + "set_verified", params={"comb_class": "int"}, modifies=["self.ver", "self.root"], ensures=more("ver", "comb_class", "int"), **ek)
    w.contract(E + "connect_cycles", modifies=["self.root"], **ek)
    w.contract(E + "__getitem__", params={"comb_class": "int"}, returns="int", pure_result="self.root[comb_class]", **ek)
    w.contract(E + "equivalent", params={"label": "int", "other_label": "int"}, returns="bool", pure_result="self.root[label] == self.root[other_label]", **ek)
    # ---- the dict that forgets
    w.ghostfn("flat", [K], "tup[int]")
    w.ghostfn("unflat", ["tup[int]"], K)
    if opaque:
        w.axiom("flat is one to one (proved in c14)", {"k": K}, "unflat(flat(k)) == k and len(flat(k)) > 0", ["flat(k)"])
    else:
        w.axiom("flat(k) is k in one tuple (definition): its length", {"k": K}, "len(flat(k)) == len(k[1]) + 1 and flat(k)[0] == k[0]", ["flat(k)"])
        w.axiom("flat(k): the children", {"k": K, "i": "int"}, "implies(0 <= i and i < len(k[1]), flat(k)[i + 1] == k[1][i])", [("flat(k)", "k[1][i]")])
        w.axiom("flat(k): its entries", {"k": K, "i": "int"}, "implies(1 <= i and i < len(flat(k)), flat(k)[i] == k[1][i - 1])", ["flat(k)[i]"])
        w.axiom("unflat(t) is the first entry and the others (definition)", {"t": "tup[int]"}, "implies(len(t) > 0, unflat(t)[0] == t[0] and len(unflat(t)[1]) == len(t) - 1)", ["unflat(t)"])
        w.axiom("unflat(t): the children", {"t": "tup[int]", "i": "int"}, "implies(len(t) > 0 and 0 <= i and i < len(t) - 1, unflat(t)[1][i] == t[i + 1])", ["unflat(t)[1][i]"])
    w.record("RecomputingDict", {"rules": "set[tup[int]]", "only_equiv": "bool"}, [("rules have a parent", "parents(self)")], src=("rule_db.forget", "RecomputingDict"))
    w.macro("parents(q)", "all(pat(implies(t in q.rules, len(t) > 0), t in q.rules) for t in every('tup[int]'))")
    R = "rule_db.forget.RecomputingDict."
    rk = dict(self_type="RecomputingDict", props=P, trusted=opaque)
    w.macro("stored(q, k)", "flat(k) in q.rules")
    w.contract(R + "_flatten", trusted=opaque, params={"tuple_": K}, returns="tup[int]", props=P, ensures=[("flat", "result == flat(tuple_)")])
    w.contract(R + "_unflatten", trusted=opaque, params={"tuple_": "tup[int]"}, returns=K, props=P, requires=[("a parent", "len(tuple_) > 0")], ensures=[("unflat", "result == unflat(tuple_)"), ("back", "flat(result) == tuple_"), ("one to one", f"all(pat(unflat(flat(k)) == k, flat(k)) for k in every('{K}'))")])
    w.contract(R + "__contains__", params={"key": K}, returns="bool", ensures=[("stored", "result == stored(self, key)")], **rk)
    SET = lambda op: ("the keys", f"all(pat((t in self.rules) == ({op}), t in self.rules, t in old(self.rules)) for t in every('tup[int]'))")
    w.contract(R + "__setitem__", params={"key": K, "value": "Strat"}, modifies=["self.rules"], raises={"AssertionError": "self.only_equiv and len(key[1]) != 1"}, ensures=[SET("t in old(self.rules) or t == flat(key)")], **rk)
    w.contract(R + "__delitem__", params={"key": K}, modifies=["self.rules"], raises={"KeyError": "not stored(self, key)"}, ensures=[SET("t in old(self.rules) and t != flat(key)")], **rk)
    w.contract("RecomputingDict.pop", params={"key": K, "default": "opt[Strat]"}, modifies=["self.rules"], ensures=[SET("t in old(self.rules) and t != flat(key)")], returns="opt[Strat]", self_type="RecomputingDict", props=P, trusted=True)
    w.contract(R + "__len__", returns="int", ensures=[("number of keys", "result == card(self.rules)")], **rk)
    w.contract(R + "__iter__", yields=K, gvars={"n": ("int", "0")},
               loops={0: {"inv": [("only stored keys", "all(pat(implies(0 <= m and m < len(_yield), flat(_yield[m]) in _seen0), _yield[m]) for m in ints())"),
                                  ("all keys so far", f"all(pat(implies(t in _seen0, any(0 <= m and m < len(_yield) and flat(_yield[m]) == t for m in ints())), t in _seen0) for t in every('tup[int]'))")]}},
               ensures=[("only stored keys", "all(pat(implies(0 <= m and m < len(result), stored(self, result[m])), result[m]) for m in ints())"),
                        ("all stored keys", f"all(pat(implies(stored(self, k), any(0 <= m and m < len(result) and result[m] == k for m in ints())), flat(k)) for k in every('{K}'))")], **rk)
    if not opaque:
        return w
    # ---- the two databases
    T = "tup[int]"
    w.ghostfn("kept", ["Rule", T, "int"], T)
    w.ghostfn("kst", ["Rule", T, "int"], "bool")
    w.macro("drop(r, i)", "r.possibly_empty and emp(r.children[i])")
    w.axiom("kept(r, e, n): the labels among e[:n] whose child of r is not dropped (definition)", {"r": "Rule", "e": T}, "len(kept(r, e, 0)) == 0", ["kept(r, e, 0)"])
    w.axiom("kept(r, e, n): one more", {"r": "Rule", "e": T, "n": "int"},
            "kst(r, e, n) and implies(n >= 0, len(kept(r, e, n + 1)) == len(kept(r, e, n)) + (0 if drop(r, n) else 1) and "
            "(drop(r, n) or kept(r, e, n + 1)[len(kept(r, e, n))] == e[n]) and "
            "all(pat(implies(0 <= j and j < len(kept(r, e, n)), kept(r, e, n + 1)[j] == kept(r, e, n)[j]), kept(r, e, n + 1)[j], kept(r, e, n)[j]) for j in ints()))", ["kst(r, e, n)"])
    w.axiom("equal tuples are equal when sorted (extensionality)", {"r": "Rule", "e": T, "n": "int", "u": T}, "implies(len(u) == len(kept(r, e, n)) and all(pat(implies(0 <= i and i < len(u), u[i] == kept(r, e, n)[i]), u[i], kept(r, e, n)[i]) for i in ints()), sorted(u) == sorted(kept(r, e, n)))", [("sorted(u)", "sorted(kept(r, e, n))")])
    w.macro("cleaned(r, e)", "sorted(kept(r, e, len(e)))")
    w.ghostfn("rooted", ["map[int,int]", T], T)
    w.axiom("rooted(f, t) is t with f applied to each entry (definition)", {"f": "map[int,int]", "t": T}, "len(rooted(f, t)) == len(t)", ["rooted(f, t)"])
    w.axiom("rooted(f, t): its entries", {"f": "map[int,int]", "t": T, "i": "int"}, "implies(0 <= i and i < len(t), rooted(f, t)[i] == f[t[i]])", ["rooted(f, t)[i]"])
    w.axiom("rooted(f, t) is the only such tuple (extensionality)", {"f": "map[int,int]", "t": T, "u": T}, "implies(len(u) == len(t) and all(pat(implies(0 <= i and i < len(t), u[i] == f[t[i]]), u[i]) for i in ints()), sorted(u) == sorted(rooted(f, t)))", [("rooted(f, t)", "sorted(u)")])
    BASE = {"searcher": "Searcher", "classdb": "ClassDB", "equivdb": "EquivalenceDB", "_pruned_dict": "opt[opaque]"}
    w.record("RuleDB", {**BASE, "_rule_to_strategy": f"dict[{K},Strat]", "_eqv_rule_to_strategy": f"dict[{K},Strat]"}, [], src=("rule_db.base", "RuleDB"))
    w.record("RuleDBForget", {**BASE, "_rule_to_strategy": "RecomputingDict", "_eqv_rule_to_strategy": "RecomputingDict"},
             [("which dict", "not self._rule_to_strategy.only_equiv and self._eqv_rule_to_strategy.only_equiv"), ("rules have a parent", "parents(self._rule_to_strategy) and parents(self._eqv_rule_to_strategy)")], src=("rule_db.forget", "RuleDBForgetStrategy"))
    B = "rule_db.base.RuleDBBase."
    for ty, var in (("RuleDB", ""), ("RuleDBForget", "#forget")):
        rb = dict(self_type=ty, props=P)
        if var:
            rb["variant"] = "forget"
        ST = "self.searcher.classqueue.stopped"
        stop = lambda n: ("labels of dropped children stop", f"all(pat((l in {ST}) == (l in old({ST}) or any(0 <= i and i < {n} and drop(rule, i) and ends[i] == l for i in ints())), l in {ST}, l in old({ST})) for l in ints())")
        w.contract(B + "_clean_labels", params={"ends": T, "rule": "Rule"}, returns=T, requires=[("a label for each child", "len(ends) == len(rule.children)")], locals={"cleaned_ends": "list[int]"}, modifies=[ST],
                   loops={0: {"hint": ["kst(rule, ends, _i0)"], "inv": [("the kept labels", "len(cleaned_ends) == len(kept(rule, ends, _i0)) and all(pat(implies(0 <= j and j < len(cleaned_ends), cleaned_ends[j] == kept(rule, ends, _i0)[j]), cleaned_ends[j], kept(rule, ends, _i0)[j]) for j in ints())"), stop("_i0")]}},
                   ensures=[("the kept labels, sorted", "result == cleaned(rule, ends)"), stop("len(ends)")], **rb)
        RS, EQ, C = "self._rule_to_strategy", "self._eqv_rule_to_strategy", "cleaned(rule, ends)"
        KEY, BACK = f"(k[0] == start and k[1] == {C})", f"(k[0] == {C}[0] and len(k[1]) == 1 and k[1][0] == start)"
        eqv = f"(len({C}) == 1 and Rule_is_two_way(rule))"
        inr, ine = ("(k in %s)", "(k in %s)") if not var else ("(flat(k) in %s.rules)", "(flat(k) in %s.rules)")
        o = lambda f, m: m % f"old({f})" if not var else "(flat(k) in old(%s.rules))" % f
        keys = lambda f, m, op: f"all(pat({m % f} == ({op}), {m % f}, {o(f, m)}) for k in every('{K}'))"
        grow = lambda f, x, t, cond: f"all(pat((x in self.equivdb.{f}) == (x in old(self.equivdb.{f}) or (({cond}) and x == {x})), x in self.equivdb.{f}, x in old(self.equivdb.{f})) for x in every('{t}'))"
        mods = [ST, "self._pruned_dict", "self.equivdb.root", "self.equivdb.two", "self.equivdb.one", "self.equivdb.ver"]
        mods += [RS, EQ] if not var else [RS + ".rules", EQ + ".rules"]
        w.contract(B + "add", params={"start": "int", "ends": T, "rule": "Rule"}, requires=[("a label for each child", "len(ends) == len(rule.children)")], modifies=mods,
                   ensures=[("rules kept", keys(RS, inr, f"({o(RS, inr)} and not {KEY} and not {BACK}) if {eqv} else ({o(RS, inr)} or {KEY})")),
                            ("equivalence rules kept", keys(EQ, ine, f"{o(EQ, ine)} or ({eqv} and {KEY})")),
                            ("verified labels", grow("ver", "start", "int", "rule.isa_VerificationRule")),
                            ("two-way edges", grow("two", f"mk('{E2}', start, {C}[0])", E2, eqv)),
                            ("one-way edges", grow("one", f"mk('{E2}', start, {C}[0])", E2, f"len({C}) == 1 and not Rule_is_two_way(rule)")),
                            ("pruned dict is out of date", "self._pruned_dict is None"), stop("len(ends)")], **rb)
        w.contract(B + "contains", params={"start": "int", "ends": T}, returns="bool",
                   ensures=[("recorded", "all(pat(implies(k[0] == start and k[1] == sorted(ends), result == (%s or %s)), k[1]) for k in every('%s'))" % (inr % RS, ine % EQ, K))], **rb)
        rec = f"({inr % RS} or {ine % EQ})"
        RT = "self.equivdb.root"
        comb = f"not (len(k[1]) == 1 and {RT}[k[0]] == {RT}[k[1][0]])"
        ex = lambda res, k: f"{RT}[{k}[0]] in {res} and sorted(rooted({RT}, {k}[1])) in valof({res}, {RT}[{k}[0]])"
        only = lambda res: ("only recorded rules", f"all(all(pat(implies(r in {res} and t in valof({res}, r), any(pat({rec} and {comb} and r == {RT}[k[0]] and t == sorted(rooted({RT}, k[1])), rooted({RT}, k[1])) for k in every('{K}'))), t in valof({res}, r)) for r in ints()) for t in every('{T}'))")
        every = lambda res, dm: ("all recorded rules", f"all(pat(implies({dm} and {comb}, {ex(res, 'k')}), {dm}) for k in every('{K}'))")
        sofar = every("rules_dict", "k in _seen0") if not var else \
            ("all rules so far", f"all(pat(implies(0 <= m and m < _i0 and {comb.replace('k[', '_seq0[m][')}, {ex('rules_dict', '_seq0[m]')}), _seq0[m]) for m in ints())")
        cur = "_it0" if not var else "_seq0[_prev_i0]"
        w.contract(B + "rules_up_to_equivalence", returns=f"ddict[int,set[{T}]]", modifies=[RT], locals={"rules_dict": f"ddict[int,set[{T}]]"},
                   loops={0: {"hint": [rec.replace("(k ", f"({cur} ").replace("flat(k)", f"flat({cur})"), f"len(rooted({RT}, {cur}[1])) == len({cur}[1])"], "inv": [only("rules_dict"), sofar]}}, ensures=[only("result"), every("result", rec)], **rb)
    return w
