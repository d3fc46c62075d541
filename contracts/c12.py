"""C12: the bookkeeping of the isomorphism test and of bijections.

The inverse of a bijection walks the same pairs of classes, swapped, with the inverse permutations (_perm_inv, __init__);
the test follows equivalence rules to their end (_get_eq_descendant), decides a pair without recursion exactly when it is
matched, failed, a pair of atoms with the same counts, or an ancestor pair (_base_cases), and tries, after child i1, exactly
the children of the other rule that are not yet used (_extend_stack)."""
from pyvc.world import World

ASSUMPTIONS = [
    "constructors' equiv, atoms and emptiness are pure functions of their arguments",
    "every class of a specification has a rule (C02) and a rule with children is a Rule, as is the other rule of the pair",
]
PR = "tuple[Class,Class]"


def world(repo="/repo"):
    w = World(repo)
    P = ["C12"]
    for t in ("Class", "Rule", "Cons", "Data"):
        w.u(t)
    w.attr("Rule", "children", "tup[Class]")
    w.attr("Rule", "is_equivalence", "bool", method=True)
    w.attr("Rule", "isa_Rule", "bool")
    w.attr("Rule", "constructor", "Cons")
    w.attr("Cons", "equiv", "tuple[bool,opt[Data]]", args=("Cons",), method=True)
    w.attr("Class", "is_atom", "bool", method=True)
    w.ghostfn("amatch", ["Class", "Class", "Rule", "Rule"], "bool")
    D = f"dict[{PR},Data]"
    O = f"dict[{PR},list[int]]"
    w.record("Isomorphism", {"_rules1": "dict[Class,Rule]", "_rules2": "dict[Class,Rule]", "_ancestors": f"set[{PR}]", "_order_map": O, "_failed": f"set[{PR}]",
                             "_index_data": D, "_path_tracker": "list[tuple[tup[int],tup[int]]]"}, [], src=("isomorphism", "Isomorphism"))
    w.record("Bijection", {"_index_data": D, "_inv_index_data": D, "_spec": "opaque", "_other": "opaque", "_get_order": O, "_get_inverse_order": O}, [], src=("isomorphism", "Bijection"))
    # inv(p, v): where p sends to v (only used for permutations)
    w.ghostfn("pinv", ["list[int]", "int"], "int")
    w.macro("perm(p)", "all(pat(implies(0 <= i and i < len(p), 0 <= p[i] and p[i] < len(p) and pinv(p, p[i]) == i), p[i]) for i in ints()) and "
                       "all(pat(implies(0 <= v and v < len(p), 0 <= pinv(p, v) and pinv(p, v) < len(p) and p[pinv(p, v)] == v), pinv(p, v)) for v in ints())")
    w.macro("inverse(p, q)", "len(q) == len(p) and all(pat(implies(0 <= v and v < len(p), 0 <= q[v] and q[v] < len(p) and p[q[v]] == v), q[v]) for v in ints()) and "
                             "all(pat(implies(0 <= i and i < len(p), q[p[i]] == i), p[i]) for i in ints())")
    B = "isomorphism.Bijection."
    w.contract(B + "_perm_inv", params={"perm": "list[int]"}, returns="list[int]", props=P, requires=[("a permutation", "perm(perm)")],
               loops={0: {"inv": [("length", "len(inv) == len(perm)"), ("entries so far", "all(pat(implies(0 <= v and v < len(perm) and pinv(perm, v) < _i0, inv[v] == pinv(perm, v)), inv[v]) for v in ints())")]}},
               ensures=[("the inverse permutation", "inverse(perm, result)")])
    SW = "mk('tuple[Class,Class]', k[1], k[0])"
    w.contract(B + "__init__", self_type="Bijection", is_init=True, props=P, params={"spec": "opaque", "other": "opaque", "get_order": O, "index_data": f"opt[{D}]"},
               requires=[("orders are permutations", f"all(pat(implies(k in get_order, perm(get_order[k])), get_order[k]) for k in every('{PR}'))")],
               ensures=[("domain", "self._spec == spec and self._other == other"), ("orders", "same(self._get_order, get_order)"),
                        ("index data", f"(index_data is None and all(k not in self._index_data for k in every('{PR}'))) or (index_data is not None and same(self._index_data, index_data))"),
                        ("inverse index data", f"all(pat((k in self._inv_index_data) == ({SW} in self._index_data) and implies(k in self._inv_index_data, self._inv_index_data[k] == self._index_data[{SW}]), self._inv_index_data[k], k in self._inv_index_data) for k in every('{PR}'))"),
                        ("inverse orders", f"all(pat((k in self._get_inverse_order) == ({SW} in get_order) and implies(k in self._get_inverse_order, inverse(get_order[{SW}], self._get_inverse_order[k])), self._get_inverse_order[k], k in self._get_inverse_order) for k in every('{PR}'))")])
    I = "isomorphism.Isomorphism."
    kw = dict(self_type="Isomorphism", props=P)
    w.macro("closedr(d)", "all(pat(implies(c in d and Rule_is_equivalence(d[c]), len(d[c].children) > 0 and d[c].children[0] in d), d[c]) for c in every('Class'))")
    w.macro("eqpath(d, L, c)", "len(L) > 0 and L[0] == c and L[len(L) - 1] in d and all(pat(implies(0 <= i and i < len(L) - 1, L[i] in d and Rule_is_equivalence(d[L[i]]) and L[i + 1] == d[L[i]].children[0]), L[i]) for i in ints())")
    w.contract(I + "_get_eq_descendant", params={"node1": "Class", "node2": "Class"}, returns="tuple[list[Class],list[Class]]",
               requires=[("closed specifications", "node1 in self._rules1 and node2 in self._rules2 and closedr(self._rules1) and closedr(self._rules2)")],
               loops={0: {"inv": [("path", "eqpath(self._rules1, nodes1, node1)"), ("other", "len(nodes2) == 1 and nodes2[0] == node2")]}, 1: {"inv": [("path", "eqpath(self._rules2, nodes2, node2)")]}},
               ensures=[("path in the first", "eqpath(self._rules1, result[0], node1) and not Rule_is_equivalence(self._rules1[result[0][len(result[0]) - 1]])"),
                        ("path in the second", "eqpath(self._rules2, result[1], node2) and not Rule_is_equivalence(self._rules2[result[1][len(result[1]) - 1]])")], **kw)
    w.contract(I + "_atom_match", params={"atom1": "Class", "atom2": "Class", "rule1": "Rule", "rule2": "Rule"}, returns="bool", pure_result="amatch(atom1, atom2, rule1, rule2)", trusted=True, **kw)
    CE = "Cons_equiv(rule1.constructor, rule2.constructor)"
    GOT = f"({CE}[0] and {CE}[1] is not None)"
    w.contract(I + "_constructor_match", params={"rule1": "Rule", "rule2": "Rule", "curr1": "Class", "curr2": "Class"}, returns="bool", modifies=["self._index_data"],
               ensures=[("answer", f"result == {CE}[0]"), ("other pairs", f"all(pat(implies(not ({GOT} and k == mk('{PR}', curr1, curr2)), (k in self._index_data) == (k in old(self._index_data)) and self._index_data[k] == old(self._index_data)[k]), k in self._index_data, self._index_data[k]) for k in every('{PR}'))"),
                        ("this pair", f"implies({GOT}, mk('{PR}', curr1, curr2) in self._index_data and self._index_data[mk('{PR}', curr1, curr2)] == {CE}[1])")], **kw)
    w.contract(I + "_path_tracker_pop", modifies=["self._path_tracker"], requires=[("something", "len(self._path_tracker) > 0")], ensures=[("last dropped", "len(self._path_tracker) == len(old(self._path_tracker)) - 1 and all(pat(implies(0 <= i and i < len(self._path_tracker), self._path_tracker[i] == old(self._path_tracker)[i]), self._path_tracker[i]) for i in ints())")], **kw)
    KEY = f"mk('{PR}', eq_nodes1[len(eq_nodes1) - 1], eq_nodes2[len(eq_nodes2) - 1])"
    C1, C2 = f"{KEY}[0]", f"{KEY}[1]"
    ANC = "any(any(0 <= i and i < len(eq_nodes1) and 0 <= j and j < len(eq_nodes2) and mk('" + PR + "', eq_nodes1[i], eq_nodes2[j]) in self._ancestors for i in ints()) for j in ints())"
    LEAF = "(len(rule1.children) == 0 and len(rule2.children) == 0)"
    COUNT = "len(non_empty_children1) == len(non_empty_children2)"
    VALID = f"({KEY} in self._order_map or ({KEY} not in self._failed and {COUNT} and (({LEAF} and Class_is_atom({C1}) and Class_is_atom({C2}) and amatch({C1}, {C2}, rule1, rule2)) or (not {LEAF} and {CE}[0] and {ANC}))))"
    GO = f"({KEY} not in self._order_map and {KEY} not in self._failed and {COUNT} and not {LEAF} and {CE}[0] and not {ANC})"
    w.contract(I + "_base_cases", params={"eq_nodes1": "list[Class]", "rule1": "Rule", "non_empty_children1": "tup[int]", "eq_nodes2": "list[Class]", "rule2": "Rule", "non_empty_children2": "tup[int]"},
               returns="int", modifies=["self._index_data"], requires=[("paths", "len(eq_nodes1) > 0 and len(eq_nodes2) > 0"), ("rules with children", f"{LEAF} or (rule1.isa_Rule and rule2.isa_Rule)")],
               ensures=[("match", f"(result == 1) == {VALID}"), ("undecided", f"(result == 0) == {GO}"), ("else no match", "result == 1 or result == 0 or result == -1"),
                        ("index data of other pairs", f"all(pat(implies(k != {KEY}, (k in self._index_data) == (k in old(self._index_data)) and self._index_data[k] == old(self._index_data)[k]), k in self._index_data, self._index_data[k]) for k in every('{PR}'))"),
                        ("index data of this pair", f"implies(result == 0 and {CE}[1] is not None, {KEY} in self._index_data and self._index_data[{KEY}] == {CE}[1])")], **kw)
    T3 = "tuple[int,int,set[int]]"
    w.contract(I + "_extend_stack", props=P, params={"i1": "int", "n": "int", "in_use": "set[int]", "stack": f"list[{T3}]"}, modifies=["stack"],
               loops={0: {"inv": [("kept", "len(stack) >= len(old(stack)) and all(pat(implies(0 <= j and j < len(old(stack)), same(stack[j], old(stack)[j])), stack[j]) for j in ints())"),
                                  ("only unused children", "all(pat(implies(len(old(stack)) <= j and j < len(stack), stack[j][0] == i1 + 1 and n - 1 - _i0 < stack[j][1] and stack[j][1] < n and stack[j][1] not in in_use and all((x in stack[j][2]) == (x in in_use or x == stack[j][1]) for x in ints())), stack[j]) for j in ints())"),
                                  ("all of them", "all(pat(implies(n - 1 - _i0 < b and b < n and b not in in_use, any(len(old(stack)) <= j and j < len(stack) and stack[j][1] == b for j in ints())), b in in_use) for b in ints())")]}},
               ensures=[("kept", "len(stack) >= len(old(stack)) and all(pat(implies(0 <= j and j < len(old(stack)), same(stack[j], old(stack)[j])), stack[j]) for j in ints())"),
                        ("only unused children", "all(pat(implies(len(old(stack)) <= j and j < len(stack), stack[j][0] == i1 + 1 and 0 <= stack[j][1] and stack[j][1] < n and stack[j][1] not in in_use and all((x in stack[j][2]) == (x in in_use or x == stack[j][1]) for x in ints())), stack[j]) for j in ints())"),
                        ("all of them", "all(pat(implies(0 <= b and b < n and b not in in_use, any(len(old(stack)) <= j and j < len(stack) and stack[j][1] == b for j in ints())), b in in_use) for b in ints())")])
    return w
