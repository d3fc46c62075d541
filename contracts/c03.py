"""C03: the table method computes the least fixed point.

f(l) is the value of the function at label l (None: infinite).  A pre-fixed point is a map g together with a
witness w: for every rule r, either g is infinite at its parent or the child number w[r] blocks it, i.e.
g(child) + shift <= g(parent).  The least fixed point is the least such g.  Proved:
 - f is below every pre-fixed point (the invariant "below every pre-fixed point", which every change of f keeps);
 - when add_rule_key returns, f is itself a pre-fixed point.
The step "values above the gap are infinite" is an induction on k: every pre-fixed point is at least
gap end + k above the gap."""
from pyvc.world import World

ASSUMPTIONS = [
    "termination of the loops of _process_queue is not proved (bounded check of C03 covers it)",
    "labels are natural numbers and a rule key has one shift per child (ForestRuleKey as built by AbstractRule.forest_key)",
]


def world(repo="/repo"):
    w = World(repo)
    w.u("RuleBucket")
    w.record("DefaultListInt", {"_default_factory": "fn:int", "_list": "list[int]"}, [], src=("rule_db.forest", "DefaultList"))
    w.macro("val(F, k)", "F._value[k] if k < len(F._value) else cast('opt[int]', 0)")
    w.macro("cnt(F, v)", "F._preimage_count._list[v] if v < len(F._preimage_count._list) else 0")
    w.ghostfn("ext", ["set[int]", "int", "int"], "set[int]")
    w.axiom("ext(S, lo, n) is S with lo .. lo + n - 1 (definition)", {"S": "set[int]", "lo": "int", "n": "int", "x": "int"},
            "(x in ext(S, lo, n)) == (x in S or (lo <= x and x < lo + n))", ["x in ext(S, lo, n)"])
    FINV = [
        ("values are natural", "all(self._value[k] is None or self._value[k] >= 0 for k in range(len(self._value)))"),
        ("preimages", "all(all(pat((k in self.pre[v]) == (0 <= k and k < len(self._value) and self._value[k] is not None and self._value[k] == v), k in self.pre[v]) for k in ints()) for v in nats())"),
        ("each value is in its preimage", "all(pat(implies(0 <= k and k < len(self._value) and self._value[k] is not None, k in self.pre[self._value[k]]), self._value[k]) for k in ints())"),
        ("preimages are finite", "all(pat(finite(self.pre[v]), self.pre[v]) for v in nats())"),
        ("preimage counts", "all(pat(cnt(self, v) == card(self.pre[v]), self.pre[v]) for v in nats())"),
    ]
    w.record("Function", {"_value": "list[opt[int]]", "_preimage_count": "DefaultListInt", "_infinity_count": "int"}, FINV,
             src=("rule_db.forest", "Function"), ghost={"pre": "map[int,set[int]]"})
    P = ["C03"]
    Q = "rule_db.forest.Function."
    kw = dict(self_type="Function", props=P)
    FM = ["self._value", "self._preimage_count._list", "self.pre"]
    SAMEF = ("no value changes", "all(pat(val(self, k) == old(val(self, k)), self._value[k]) for k in nats())")
    LONGER = ("known labels stay", "len(self._value) >= len(old(self._value))")
    KNOWN = ("known labels change nothing", "implies(key < len(old(self._value)), len(self._value) == len(old(self._value)))")
    w.contract(Q + "__init__", is_init=True, ghost_updates={"self.pre": "mapof('int', 'set[int]', lambda v: setof('int', lambda k: False))"},
               ensures=[("zero everywhere", "len(self._value) == 0")], **kw)
    w.contract(Q + "_increase_list_len", params={"key": "int"}, requires=[("new label", "key >= len(self._value)")], modifies=FM,
               ghost_updates={"self.pre": "store(self.pre, 0, ext(self.pre[0], len(old(self._value)), key - len(old(self._value)) + 1))"},
               lemmas=["same(ext(old(self.pre)[0], len(old(self._value)), 0), old(self.pre)[0])",
                       "all(pat(implies(n >= 0, same(ext(old(self.pre)[0], len(old(self._value)), n + 1), with_(ext(old(self.pre)[0], len(old(self._value)), n), len(old(self._value)) + n))), ext(old(self.pre)[0], len(old(self._value)), n)) for n in ints())",
                       ("induct", "n", "finite(ext(old(self.pre)[0], len(old(self._value)), n))"),
                       ("induct", "n", "card(ext(old(self.pre)[0], len(old(self._value)), n)) == card(old(self.pre)[0]) + n")],
               ensures=[SAMEF, LONGER, ("known", "len(self._value) == key + 1")], **kw)
    w.contract(Q + "__getitem__", params={"key": "int"}, returns="opt[int]", pure_result="val(self, key)", requires=[("label", "key >= 0")], modifies=FM,
               repeat=[SAMEF, LONGER], repeat_each=[("known", "key < len(self._value)")],
               ensures=[("known labels change nothing", "implies(key < len(old(self._value)), same(self._value, old(self._value)))")], **kw)
    w.contract(Q + "increase_value", params={"key": "int"}, requires=[("label", "key >= 0")], modifies=FM, raises={"ValueError": "val(self, key) is None"},
               ghost_updates={"self.pre": "store(store(self.pre, old(val(self, key)), without(self.pre[old(val(self, key))], key)), old(val(self, key)) + 1, with_(self.pre[old(val(self, key)) + 1], key))"},
               ensures=[("one more", "val(self, key) == cast('opt[int]', old(val(self, key)) + 1)"), ("known", "key < len(self._value)"), LONGER, KNOWN,
                        ("other values kept", "all(pat(implies(k != key, val(self, k) == old(val(self, k))), self._value[k]) for k in nats())")], **kw)
    w.contract(Q + "set_infinite", params={"key": "int"}, requires=[("label", "key >= 0")], modifies=FM + ["self._infinity_count"], raises={"ValueError": "val(self, key) is None"},
               ghost_updates={"self.pre": "store(self.pre, old(val(self, key)), without(self.pre[old(val(self, key))], key))"},
               ensures=[("infinite", "val(self, key) is None"), ("known", "key < len(self._value)"), LONGER, KNOWN,
                        ("other values kept", "all(pat(implies(k != key, val(self, k) == old(val(self, k))), self._value[k]) for k in nats())")], **kw)
    w.contract(Q + "preimage_gap", params={"length": "int"}, returns="int", raises={"ValueError": "length <= 0"},
               loops={0: {"inv": [("last", "-1 <= last_non_zero and last_non_zero < _i0 and _i0 - last_non_zero - 1 < length"),
                                  ("nothing after the last", "all(implies(last_non_zero < v and v < _i0, self._preimage_count._list[v] == 0) for v in nats())")]}},
               ensures=[("natural", "result >= 0"),
                        ("no value in the gap", "all(pat(implies(0 <= k and k < len(self._value) and self._value[k] is not None, not (result <= self._value[k] and self._value[k] <= result + length - 1)), self._value[k]) for k in ints())")], **kw)
    # ---- preimage, to_dict
    w.contract(Q + "preimage", params={"value": "opt[int]"}, returns="list[int]", raises={"ValueError": "value is not None and value == 0"},
               ensures=[("only these", "all(0 <= result[m] and result[m] < len(self._value) and self._value[result[m]] == value for m in range(len(result)))"),
                        ("all of these", "all(implies(self._value[k] == value, any(result[m] == k for m in range(len(result)))) for k in range(len(self._value)))")], **kw)
    w.contract(Q + "to_dict", returns="dict[int,opt[int]]",
               ensures=[("labels of nonzero value", "all((k in result) == (val(self, k) != cast('opt[int]', 0)) for k in nats())"),
                        ("natural labels", "all(implies(k in result, k >= 0) for k in ints())"),
                        ("their values", "all(implies(k in result, result[k] == val(self, k)) for k in nats())")], **kw)
    # ---- the table method
    w.record("DefaultListPair", {"_default_factory": "fn:list", "_list": "list[list[tuple[int,int]]]"}, [], src=("rule_db.forest", "DefaultList"))
    w.record("DefaultListIdx", {"_default_factory": "fn:list", "_list": "list[list[int]]"}, [], src=("rule_db.forest", "DefaultList"))
    w.nt("ForestRuleKey", [("parent", "int"), ("children", "tup[int]"), ("shifts", "tup[int]"), ("bucket", "RuleBucket")], src=("typing", "ForestRuleKey"))
    w.ghostfn("Z", ["map[int,opt[int]]", "map[int,int]"], "bool")
    w.axiom("Z marks the candidates the proofs talk about (it holds of all of them)", {"g": "map[int,opt[int]]", "w": "map[int,int]"}, "Z(g, w)", ["Z(g, w)"])
    w.ghostfn("bad", ["list[opt[int]]"], "int")
    w.macro("badat(S, m)", "0 <= m and m < len(S) and S[m] is not None and S[m] <= 0")
    w.macro("blk(S)", "badat(S, bad(S))")
    w.axiom("bad(S) is a position of S holding a number <= 0, if there is one (choice)", {"S": "list[opt[int]]"},
            "implies(any(badat(S, m) for m in ints()), blk(S))", ["bad(S)"])
    w.macro("f(q, l)", "val(q._function, l)")
    w.macro("le(a, b)", "b is None or (a is not None and a <= b)")
    w.macro("par(q, r)", "q._rules[r].parent")
    w.macro("ch(q, r, i)", "q._rules[r].children[i]")
    w.macro("sh(q, r, i)", "q._rules[r].shifts[i]")
    w.macro("ar(q, r)", "len(q._rules[r].children)")
    w.macro("isr(q, r)", "0 <= r and r < len(q._rules)")
    w.macro("isri(q, r, i)", "isr(q, r) and 0 <= i and i < ar(q, r)")
    w.macro("live(q, r)", "f(q, par(q, r)) is not None")
    w.macro("held(g, w, q, r)", "g[par(q, r)] is None or (0 <= w[r] and w[r] < ar(q, r) and g[ch(q, r, w[r])] is not None and g[ch(q, r, w[r])] + sh(q, r, w[r]) <= g[par(q, r)])")
    w.macro("PF(q, g, w)", "all(pat(implies(l >= 0, g[l] is None or g[l] >= 0), g[l]) for l in ints()) and all(pat(implies(isr(q, r), held(g, w, q, r)), q._rules[r], w[r]) for r in ints())")
    w.macro("below(q, g)", "all(pat(implies(l >= 0, le(f(q, l), g[l])), g[l]) for l in ints())")
    w.macro("J(q)", "all(all(pat(implies(Z(g, w) and PF(q, g, w), below(q, g)), Z(g, w)) for w in every('map[int,int]')) for g in every('map[int,opt[int]]'))")
    w.macro("gapvalid(q)", "all(pat(implies(0 <= k and k < len(q._function._value) and q._function._value[k] is not None, not (q._current_gap[0] <= q._function._value[k] and q._function._value[k] <= q._current_gap[1])), q._function._value[k]) for k in ints())")
    w.macro("allzero(q)", "all(pat(implies(0 <= k and k < len(q._function._value), q._function._value[k] is None or q._function._value[k] == 0), q._function._value[k]) for k in ints())")
    w.macro("ul(q)", "q._rules_using_class._list")
    w.macro("pl(q)", "q._rules_pumping_class._list")
    w.macro("ri(r, i)", "mk('tuple[int,int]', r, i)")
    w.macro("upos(q, c, r, i)", "indexof(ul(q)[c], ri(r, i))")
    w.macro("ppos(q, c, r)", "indexof(pl(q)[c], r)")
    w.macro("row(q, r, i)", "q._shifts[r][i]")
    w.macro("right(q, r, i)", "(row(q, r, i) is None and f(q, ch(q, r, i)) is None) or (row(q, r, i) is not None and f(q, ch(q, r, i)) is not None and "
            "row(q, r, i) == f(q, ch(q, r, i)) + sh(q, r, i) - f(q, par(q, r)))")
    w.macro("sched(q, r)", "has(q._processing_queue, r) or r in q._rule_holding_extra_terms")
    FI = [("function: " + a, x.replace("self", "q._function")) for a, x in FINV]
    STR = [
        ("one row per rule", "len(q._shifts) == len(q._rules)"),
        ("rules are well formed", "all(pat(implies(isr(q, r), par(q, r) >= 0 and len(q._rules[r].shifts) == ar(q, r)), q._rules[r]) for r in ints())"),
        ("children are labels", "all(all(pat(implies(isri(q, r, i), ch(q, r, i) >= 0), ch(q, r, i)) for i in ints()) for r in ints())"),
        ("rows have the arity", "all(pat(implies(isr(q, r), len(q._shifts[r]) == ar(q, r)), q._shifts[r]) for r in ints())"),
        ("parents are known", "all(pat(implies(isr(q, r) and live(q, r), par(q, r) < len(q._function._value)), q._rules[r]) for r in ints())"),
        ("children are known", "all(all(pat(implies(isri(q, r, i) and live(q, r), ch(q, r, i) < len(q._function._value)), ch(q, r, i)) for i in ints()) for r in ints())"),
    ]
    GAP = [
        ("gap size", "q._gap_size >= 1"),
        ("the gap has its size", "q._current_gap[0] >= 0 and q._current_gap[1] == q._current_gap[0] + q._gap_size - 1"),
        ("shifts fit in the gap", "all(all(pat(implies(isri(q, r, i), 0 - q._gap_size <= sh(q, r, i) and sh(q, r, i) <= q._gap_size), sh(q, r, i)) for i in ints()) for r in ints())"),
        ("no value in the gap", "gapvalid(q) or allzero(q)"),
    ]
    HQ = [
        ("rules held back are above the gap", "all(implies(r in q._rule_holding_extra_terms, isr(q, r) and (f(q, par(q, r)) is None or f(q, par(q, r)) > q._current_gap[1])) for r in ints())"),
        ("queued rules exist", "all(pat(implies(has(q._processing_queue, r), isr(q, r)), has(q._processing_queue, r)) for r in ints())"),
    ]
    LST = [
        ("users of a class", "all(all(pat(implies(0 <= c and c < len(ul(q)) and 0 <= m and m < len(ul(q)[c]), isri(q, ul(q)[c][m][0], ul(q)[c][m][1]) and ch(q, ul(q)[c][m][0], ul(q)[c][m][1]) == c and live(q, ul(q)[c][m][0])), ul(q)[c][m]) for m in ints()) for c in ints())"),
        ("users are recorded", "all(all(pat(implies(isri(q, r, i) and live(q, r) and f(q, ch(q, r, i)) is not None, ch(q, r, i) < len(ul(q)) and 0 <= upos(q, ch(q, r, i), r, i) and "
         "upos(q, ch(q, r, i), r, i) < len(ul(q)[ch(q, r, i)]) and ul(q)[ch(q, r, i)][upos(q, ch(q, r, i), r, i)] == ri(r, i)), ch(q, r, i)) for i in ints()) for r in ints())"),
        ("users are recorded once", "all(all(all(pat(implies(0 <= c and c < len(ul(q)) and 0 <= m and m < n and n < len(ul(q)[c]), ul(q)[c][m] != ul(q)[c][n]), (ul(q)[c][m], ul(q)[c][n])) for n in ints()) for m in ints()) for c in ints())"),
        ("rules of a class", "all(all(pat(implies(0 <= c and c < len(pl(q)) and 0 <= m and m < len(pl(q)[c]), isr(q, pl(q)[c][m]) and par(q, pl(q)[c][m]) == c and f(q, c) is not None), pl(q)[c][m]) for m in ints()) for c in ints())"),
        ("rules are recorded", "all(pat(implies(isr(q, r) and live(q, r), par(q, r) < len(pl(q)) and 0 <= ppos(q, par(q, r), r) and ppos(q, par(q, r), r) < len(pl(q)[par(q, r)]) and "
         "pl(q)[par(q, r)][ppos(q, par(q, r), r)] == r), q._rules[r]) for r in ints())"),
        ("rules are recorded once", "all(all(all(pat(implies(0 <= c and c < len(pl(q)) and 0 <= m and m < n and n < len(pl(q)[c]), pl(q)[c][m] != pl(q)[c][n]), (pl(q)[c][m], pl(q)[c][n])) for n in ints()) for m in ints()) for c in ints())"),
    ]
    TAB = [("shifts are up to date", "all(all(pat(implies(isri(q, r, i) and live(q, r), right(q, r, i)), row(q, r, i), ch(q, r, i)) for i in ints()) for r in ints())")]
    LOW = [("below every pre-fixed point", "J(q)")]
    I2 = [("rules that can give a term are scheduled", "all(pat(implies(isr(q, r) and live(q, r), blk(q._shifts[r]) or sched(q, r)), q._shifts[r]) for r in ints())")]
    CORE = FI + STR + GAP + HQ + LST + TAB + LOW
    QUIET = [
        ("nothing queued", "len(q._processing_queue) == 0"),
        ("nothing held back", "all(r not in q._rule_holding_extra_terms for r in ints())"),
        ("no finite value above the gap", "all(pat(implies(0 <= k and k < len(q._function._value), q._function._value[k] is None or q._function._value[k] <= q._current_gap[1]), q._function._value[k]) for k in ints())"),
    ]
    PRE = [("f is a pre-fixed point", "PF(q, FM(q), BW(q))")]
    w.ghostfn("fmap", ["list[opt[int]]"], "map[int,opt[int]]")
    w.macro("at0(F, l)", "F[l] if l < len(F) else cast('opt[int]', 0)")
    w.axiom("fmap(F): the function as a map (definition)", {"F": "list[opt[int]]", "l": "int"}, "fmap(F)[l] == at0(F, l)", ["fmap(F)[l]"])
    w.ghostfn("badmap", ["list[list[opt[int]]]"], "map[int,int]")
    w.axiom("badmap: the blocking child of every row (definition)", {"S": "list[list[opt[int]]]", "r": "int"}, "badmap(S)[r] == bad(S[r])", ["badmap(S)[r]"])
    w.macro("FM(q)", "fmap(q._function._value)")
    w.macro("BW(q)", "badmap(q._shifts)")
    S = lambda xs: [(a, x.replace("q.", "self.").replace("(q", "(self")) for a, x in xs]
    w.record("TableMethod", {
        "_rules": "list[ForestRuleKey]", "_shifts": "list[list[opt[int]]]", "_function": "Function", "_gap_size": "int",
        "_rules_using_class": "DefaultListPair", "_rules_pumping_class": "DefaultListIdx", "_processing_queue": "list[int]",
        "_current_gap": "tuple[int,int]", "_rule_holding_extra_terms": "set[int]"}, S(CORE + I2 + QUIET + PRE), src=("rule_db.forest", "TableMethod"))
    w.has_types.add("list[int]")
    T = "rule_db.forest.TableMethod."
    tk = dict(self_type="TableMethod", props=P)
    TF = ["self._function._value", "self._function._preimage_count._list", "self._function.pre"]
    QH = ["self._processing_queue", "self._rule_holding_extra_terms", "self._current_gap"]
    SAMEV = ("no value changes", "all(pat(f(self, l) == old(f(self, l)), self._function._value[l]) for l in nats())")
    FLONG = ("known labels stay", "len(self._function._value) >= len(old(self._function._value))")
    low = dict(use_inv=False, **tk)
    w.contract(T + "__init__", is_init=True, ensures=[("no rules", "len(self._rules) == 0"), ("zero everywhere", "len(self._function._value) == 0")], **tk)
    w.contract(T + "_can_give_terms", params={"shifts": "list[opt[int]]"}, returns="bool", props=P,
               ensures=[("no shift is a number <= 0", "result == (not blk(shifts))")])
    w.contract(T + "_compute_shift", params={"rule_key": "tuple[int,tup[int]]", "shifts_for_zero": "tup[int]"}, returns="list[opt[int]]",
               requires=S(FI) + [("labels", "rule_key[0] >= 0 and all(rule_key[1][i] >= 0 for i in range(len(rule_key[1])))"), ("one shift per child", "len(shifts_for_zero) == len(rule_key[1])")],
               modifies=TF,
               ensures=S(FI) + [SAMEV, FLONG, ("parent known", "rule_key[0] < len(self._function._value)"), ("one per child", "len(result) == len(rule_key[1])"),
                        ("children known", "implies(f(self, rule_key[0]) is not None, all(pat(implies(0 <= i and i < len(rule_key[1]), rule_key[1][i] < len(self._function._value)), rule_key[1][i]) for i in ints()))"),
                        ("shifts", "implies(f(self, rule_key[0]) is not None, all(pat((result[i] is None and f(self, rule_key[1][i]) is None) or (result[i] is not None and f(self, rule_key[1][i]) is not None and "
                         "result[i] == f(self, rule_key[1][i]) + shifts_for_zero[i] - f(self, rule_key[0])), result[i]) for i in range(len(rule_key[1]))))")], **low)
    w.contract(T + "_correct_gap", requires=S(FI + HQ) + [("gap size", "self._gap_size >= 1")], modifies=QH,
               ensures=S(HQ) + [S(GAP)[1], ("no value in the gap", "gapvalid(self)"),
                        ("scheduled rules stay scheduled", "all(pat(implies(old(sched(self, r)), sched(self, r)), has(self._processing_queue, r)) for r in ints())")], **low)
    C0 = S(FI + STR + GAP + HQ + LST + LOW)
    LOOPINV = [x for x in S(STR) if x[0] in ("one row per rule", "rows have the arity")] + [x for x in S(HQ) if x[0] == "queued rules exist"]
    off = ("all(all(pat(implies(isri(self, r, i) and live(self, r), (row(self, r, i) is None and f(self, ch(self, r, i)) is None) or (row(self, r, i) is not None and f(self, ch(self, r, i)) is not None and "
           "row(self, r, i) == f(self, ch(self, r, i)) + sh(self, r, i) - f(self, par(self, r)) + %s)), row(self, r, i), ch(self, r, i)) for i in ints()) for r in ints())")
    UP = ("values never decrease", "all(pat(le(old(f(self, l)), f(self, l)), self._function._value[l]) for l in nats())")
    w.contract(T + "_increase_value", params={"comb_class": "int", "rule_idx": "int"},
               requires=S(CORE) + [("a rule of the class", "isr(self, rule_idx) and par(self, rule_idx) == comb_class"),
                                   ("the rule can give a term", "f(self, comb_class) is None or not blk(self._shifts[rule_idx])"),
                                   ("the other rules that can give a term are scheduled", "all(pat(implies(isr(self, r) and live(self, r) and r != rule_idx, blk(self._shifts[r]) or sched(self, r)), self._shifts[r]) for r in ints())")],
               modifies=TF + QH + ["self._shifts", "self._rules_using_class._list"],
               loops={0: {"inv": LOOPINV + [
                            ("shifts up to date but for the classes to come", off % "(1 if par(self, r) == comb_class and ppos(self, comb_class, r) >= _i0 else 0) - (1 if ch(self, r, i) == comb_class else 0)"),
                            ("scheduled", "all(pat(implies(isr(self, r) and live(self, r) and (r != rule_idx or ppos(self, comb_class, r) < _i0), blk(self._shifts[r]) or sched(self, r)), self._shifts[r]) for r in ints())")]},
                      1: {"let": {"T0": "self._shifts"}, "inv": [
                            ("other rows kept", "len(self._shifts) == len(T0) and all(pat(implies(r != r_idx, self._shifts[r] == T0[r]), self._shifts[r]) for r in ints())"),
                            ("one less", "len(self._shifts[r_idx]) == len(T0[r_idx]) and all(pat((T0[r_idx][m] is None and self._shifts[r_idx][m] is None) or (T0[r_idx][m] is not None and self._shifts[r_idx][m] is not None and "
                             "self._shifts[r_idx][m] == T0[r_idx][m] - (1 if m < _i1 else 0)), self._shifts[r_idx][m]) for m in range(len(T0[r_idx])))")]},
                      2: {"inv": LOOPINV + [
                            ("shifts up to date but for the classes to come", off % "(0 - 1 if ch(self, r, i) == comb_class and upos(self, comb_class, r, i) >= _i2 else 0)"),
                            S(I2)[0]]}},
               ensures=S(CORE + I2) + [UP, FLONG], **low)
    # ---- values above the gap are infinite
    w.ghostfn("Z2", ["map[int,opt[int]]", "map[int,int]"], "bool")
    w.axiom("Z2 marks candidates (it holds of all of them)", {"g": "map[int,opt[int]]", "w": "map[int,int]"}, "Z2(g, w)", ["Z2(g, w)"])
    w.ghostfn("KK", ["int"], "bool")
    w.axiom("KK marks numbers (it holds of all of them)", {"k": "int"}, "KK(k)", ["KK(k)"])
    w.ghostfn("lower", ["list[opt[int]]", "int", "map[int,opt[int]]", "int"], "map[int,opt[int]]")
    w.axiom("lower(F, top, g, k): F up to top, g - k above (definition)", {"F": "list[opt[int]]", "top": "int", "g": "map[int,opt[int]]", "k": "int", "l": "int"},
            "lower(F, top, g, k)[l] == (cast('opt[int]', None) if at0(F, l) is None else at0(F, l) if at0(F, l) <= top else cast('opt[int]', None) if g[l] is None else cast('opt[int]', g[l] - k))",
            ["lower(F, top, g, k)[l]"])
    w.ghostfn("lowset", ["list[opt[int]]", "int", "list[ForestRuleKey]"], "set[int]")
    w.axiom("lowset: the rules whose parent is below the gap (definition)", {"F": "list[opt[int]]", "top": "int", "R": "list[ForestRuleKey]", "r": "int"},
            "(r in lowset(F, top, R)) == (at0(F, R[r].parent) is not None and at0(F, R[r].parent) <= top)", ["r in lowset(F, top, R)"])
    w.ghostfn("wit", ["list[list[opt[int]]]", "set[int]", "map[int,int]"], "map[int,int]")
    w.axiom("wit: blocking child of the low rules, w for the others (definition)", {"S": "list[list[opt[int]]]", "B": "set[int]", "w": "map[int,int]", "r": "int"},
            "wit(S, B, w)[r] == (bad(S[r]) if r in B else w[r])", ["wit(S, B, w)[r]"])
    w.macro("top(q)", "q._current_gap[1]")
    w.macro("LO(q, g, k)", "lower(q._function._value, top(q), g, k)")
    w.macro("WI(q, w)", "wit(q._shifts, lowset(q._function._value, top(q), q._rules), w)")
    w.macro("U(q, l)", "l >= 0 and (f(q, l) is None or f(q, l) > top(q))")
    w.macro("HI(q, g, k)", "all(pat(implies(U(q, l), g[l] is None or g[l] >= top(q) + k), g[l]) for l in ints())")
    INFLEM = lambda cond: [
        "implies(%s, gapvalid(self))" % cond,
        "implies(%s, all(pat(implies(isr(self, r) and live(self, r) and f(self, par(self, r)) <= top(self), blk(self._shifts[r])), self._rules[r]) for r in ints()))" % cond,
        "implies(%s, all(all(all(pat(implies(Z2(g, w) and k >= 0 and PF(self, g, w) and below(self, g) and HI(self, g, k), PF(self, LO(self, g, k), WI(self, w))), (Z2(g, w), LO(self, g, k))) for k in ints()) for w in every('map[int,int]')) for g in every('map[int,opt[int]]')))" % cond,
        ("induct", "k", "implies(%s, all(all(pat(implies(Z2(g, w) and Z(g, w) and PF(self, g, w) and Z(LO(self, g, k - 1), WI(self, w)), HI(self, g, k)), Z2(g, w)) for w in every('map[int,int]')) for g in every('map[int,opt[int]]')))" % cond, "KK(k)"),
        "implies(%s, all(all(pat(implies(Z2(g, w) and Z(g, w) and PF(self, g, w), all(pat(implies(U(self, l) and KK(g[l] + 1), g[l] is None), g[l]) for l in ints())), Z(g, w)) for w in every('map[int,int]')) for g in every('map[int,opt[int]]')))" % cond,
    ]
    USE = {a: x for a, x in S(LST)}
    users = lambda dead: ("users of a class, or of a rule to come", "all(all(pat(implies(0 <= c and c < len(ul(self)) and 0 <= m and m < len(ul(self)[c]), isri(self, ul(self)[c][m][0], ul(self)[c][m][1]) and ch(self, ul(self)[c][m][0], ul(self)[c][m][1]) == c and (live(self, ul(self)[c][m][0]) or "
                          "par(self, ul(self)[c][m][0]) == comb_class and (%s))), ul(self)[c][m]) for m in ints()) for c in ints())" % dead)
    recd = ("users are recorded", USE["users are recorded"].replace("live(self, r) and f(self, ch(self, r, i)) is not None", "live(self, r) and (f(self, ch(self, r, i)) is not None or ch(self, r, i) == comb_class)"))
    once = ("users are recorded once", USE["users are recorded once"])
    w.contract(T + "_set_infinite", params={"comb_class": "int"},
               requires=S(CORE) + [("label", "comb_class >= 0"), ("empty queue", "len(self._processing_queue) == 0"),
                                   ("above the gap", "f(self, comb_class) is None or f(self, comb_class) > top(self)"),
                                   ("the other rules that can give a term are scheduled", "all(pat(implies(isr(self, r) and live(self, r) and par(self, r) != comb_class, blk(self._shifts[r]) or sched(self, r)), self._shifts[r]) for r in ints())")],
               entry_lemmas=INFLEM("f(self, comb_class) is not None"),
               modifies=TF + ["self._processing_queue", "self._shifts", "self._rules_using_class._list", "self._rules_pumping_class._list", "self._function._infinity_count"],
               loops={0: {"inv": [users("ppos(self, comb_class, ul(self)[c][m][0]) >= _i0"), recd, once]},
                      1: {"inv": [users("ppos(self, comb_class, ul(self)[c][m][0]) > _i0 or ul(self)[c][m][0] == rule_idx and ul(self)[c][m][1] >= _i1"), recd, once]},
                      2: {"inv": LOOPINV + [
                          ("shifts up to date but for the rules to come", "all(all(pat(implies(isri(self, r, i) and live(self, r), right(self, r, i) if ch(self, r, i) != comb_class or upos(self, comb_class, r, i) < _i2 else row(self, r, i) is not None), row(self, r, i), ch(self, r, i)) for i in ints()) for r in ints())"),
                          S(I2)[0]]}},
               ensures=S(CORE + I2) + [UP, FLONG, ("infinite", "f(self, comb_class) is None")], **low)
    ALL = TF + QH + ["self._shifts", "self._rules_using_class._list", "self._rules_pumping_class._list", "self._function._infinity_count"]
    w.contract(T + "_process_queue", requires=S(CORE + I2), modifies=ALL,
               loops={0: {"inv": S(CORE + I2) + [UP, FLONG],
                          "after": S(PRE) and ["PF(self, FM(self), BW(self))"] + INFLEM("not allzero(self)") + ["Z2(FM(self), BW(self)) and Z(FM(self), BW(self))"]},
                      1: {"inv": S(CORE + I2) + [UP, FLONG]}},
               ensures=S(CORE + I2 + QUIET + PRE) + [UP, FLONG], **low)
    w.contract(T + "add_rule_key", params={"rule_key": "ForestRuleKey"},
               requires=[("labels", "rule_key.parent >= 0 and all(rule_key.children[i] >= 0 for i in range(len(rule_key.children)))"),
                         ("one shift per child", "len(rule_key.shifts) == len(rule_key.children)")],
               modifies=ALL + ["self._rules", "self._gap_size"],
               loops={0: {"let": {"F0": "self._function._value"}, "inv": S(FI) + [
                   ("values kept", "same(self._function._value, F0)"),
                   ("the new row", "all(pat(implies(0 <= i and i < ar(self, rule_idx), right(self, rule_idx, i)), row(self, rule_idx, i), ch(self, rule_idx, i)) for i in ints())"),
                   ("the other rows", S(TAB)[0][1].replace("live(self, r),", "live(self, r) and r != rule_idx,")),
                   ("users of a class", USE["users of a class"].replace("and live(", "and (ul(self)[c][m][0] != rule_idx or ul(self)[c][m][1] < _i0) and live(")),
                   ("users are recorded", USE["users are recorded"].replace("isri(self, r, i) and", "isri(self, r, i) and (r != rule_idx or i < _i0) and")),
                   once],
                   "after": [S(TAB)[0][1]]}},
               ensures=[("the rule is added", "len(self._rules) == len(old(self._rules)) + 1 and self._rules[len(old(self._rules))] == rule_key"),
                        ("other rules kept", "all(pat(self._rules[r] == old(self._rules)[r], self._rules[r]) for r in range(len(old(self._rules))))"), UP], **tk)
    # ---- observers
    w.contract(T + "is_pumping", params={"label": "int"}, returns="bool", requires=[("label", "label >= 0")], modifies=TF,
               lemmas=["Z(FM(self), BW(self))"],
               ensures=[("infinite value", "result == (f(self, label) is None)"), SAMEV,
                        ("infinite in every pre-fixed point", "implies(result, all(all(pat(implies(Z(g, w) and PF(self, g, w), g[label] is None), Z(g, w)) for w in every('map[int,int]')) for g in every('map[int,opt[int]]')))"),
                        ("finite in the least pre-fixed point", "implies(not result, PF(self, FM(self), BW(self)) and FM(self)[label] is not None)")], **tk)
    w.contract(T + "function", returns="dict[int,opt[int]]",
               ensures=[("labels of nonzero value", "all((k in result) == (f(self, k) != cast('opt[int]', 0)) for k in nats())"),
                        ("natural labels", "all(implies(k in result, k >= 0) for k in ints())"),
                        ("their values", "all(implies(k in result, result[k] == f(self, k)) for k in nats())")], **tk)
    w.contract(T + "stable_subset", returns="list[int]",
               ensures=[("only pumping labels", "all(result[m] >= 0 and f(self, result[m]) is None for m in range(len(result)))"),
                        ("all pumping labels", "all(implies(f(self, k) is None, any(result[m] == k for m in range(len(result)))) for k in nats())")], **tk)
    w.macro("stable(q, r)", "f(q, par(q, r)) is None and all(pat(implies(0 <= i and i < ar(q, r), f(q, ch(q, r, i)) is None), ch(q, r, i)) for i in ints())")
    w.contract(T + "pumping_subuniverse", yields="ForestRuleKey",
               gvars={"src": ("map[int,int]", "mapof('int', 'int', lambda k: 0)"), "n": ("int", "0"), "dst": ("map[int,int]", "mapof('int', 'int', lambda k: 0)")},
               ensures=[("only rules between pumping classes", "all(any(pat(0 <= r and r < len(self._rules) and stable(self, r) and result[m] == self._rules[r], self._rules[r]) for r in ints()) for m in range(len(result)))"),
                        ("all rules between pumping classes", "all(pat(implies(0 <= r and r < len(self._rules) and stable(self, r), any(0 <= m and m < len(result) and result[m] == self._rules[r] for m in ints())), self._rules[r]) for r in ints())")],
               loops={0: {"step": [("src", "store(src, n, _i0 - 1)"), ("dst", "store(dst, _i0 - 1, n)"), ("n", "len(_yield)")],
                          "inv": [("rules yielded", "n == len(_yield)"), ("the pumping labels", "all(pat((k in stable_subset) == (k >= 0 and f(self, k) is None), k in stable_subset) for k in ints())"),
                                  ("only rules between pumping classes", "all(pat(implies(0 <= m and m < len(_yield), 0 <= src[m] and src[m] < _i0 and stable(self, src[m]) and _yield[m] == self._rules[src[m]]), _yield[m]) for m in ints())"),
                                  ("all rules between pumping classes", "all(pat(implies(0 <= r and r < _i0 and stable(self, r), 0 <= dst[r] and dst[r] < len(_yield) and _yield[dst[r]] == self._rules[r]), self._rules[r]) for r in ints())")]}}, **tk)
    return w
