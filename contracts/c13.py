"""C13: the pieces the two searches of the parallel finder decide with.

The first search: which pairs need no recursion and with what answer (_base_case), atoms and constructors (_atom_match,
_rule_match), the children of the other rule tried after child i1 (_extend_stack).  The second: when a pair contradicts what
is chosen (_inconsistent_with_matching_info), its base cases, and undoing a failed choice (_clean_descendants)."""
from pyvc.world import World

ASSUMPTIONS = [
    "constructors' equiv is a pure function of its arguments; counts of atoms are compared as values",
]
I2 = "tuple[int,int]"
CC = "tuple[tup[int],tup[int]]"


def world(repo="/repo"):
    w = World(repo)
    P = ["C13"]
    for t in ("Rule", "Cons", "Terms", "Data"):
        w.u(t)
    w.attr("Rule", "isa_Rule", "bool")
    w.attr("Rule", "constructor", "Cons")
    w.attr("Cons", "equiv", "tuple[bool,opt[Data]]", args=("Cons",), method=True)
    w.record("ParallelInfo", {"atom_map": "dict[int,tuple[int,Terms]]", "eq_label_rules": "ddict[int,ddict[int,list[tuple[tup[int],Rule]]]]"}, [], src=("bijection", "ParallelInfo"))
    w.record("Finder", {"_pi1": "ParallelInfo", "_pi2": "ParallelInfo", "_ancestors": f"set[{I2}]"}, [], src=("bijection", "ParallelSpecFinder"))
    F = "bijection.ParallelSpecFinder."
    kw = dict(self_type="Finder", props=P)
    BOTH = "(id1 in self._pi1.atom_map and id2 in self._pi2.atom_map)"
    EQ = "(self._pi1.atom_map[id1][0] == self._pi2.atom_map[id2][0] and self._pi1.atom_map[id1][1] == self._pi2.atom_map[id2][1])"
    w.contract(F + "_atom_match", params={"id1": "int", "id2": "int"}, returns="bool", requires=[("atoms", BOTH)], ensures=[("same size and counts", f"result == {EQ}")], **kw)
    w.contract(F + "_rule_match", params={"rule1": "Rule", "rule2": "Rule"}, returns="bool",
               ensures=[("answer", "result == ((not rule1.isa_Rule and not rule2.isa_Rule) or (rule1.isa_Rule and rule2.isa_Rule and Cons_equiv(rule1.constructor, rule2.constructor)[0]))")], **kw)
    MI = f"ddict[{I2},dict[{CC},list[int]]]"
    K = f"mk('{I2}', id1, id2)"
    E = f"mk('{CC}', tl(), tl())"
    ATOM = f"({BOTH} and {EQ})"
    w.ghostfn("notup", [], "tup[int]")
    w.axiom("notup() is empty", {"t": "tup[int]"}, "len(notup()) == 0 and implies(len(t) == 0, t == notup())", ["len(t)"])
    E = f"mk('{CC}', notup(), notup())"
    w.contract(F + "_base_case", params={"id1": "int", "id2": "int", "matching_info": MI, "visited": f"set[{I2}]"}, returns="int", modifies=["matching_info"],
               ensures=[("match", f"(result == 1) == ({ATOM} or {K} in old(matching_info) or ({K} not in visited and {K} in self._ancestors))"),
                        ("no match", f"(result == -1) == (not {ATOM} and {K} not in old(matching_info) and {K} in visited)"), ("else undecided", "result == 1 or result == -1 or result == 0"),
                        ("atoms are recorded", f"implies({ATOM}, {K} in matching_info and {E} in matching_info[{K}] and all(pat(implies(e in matching_info[{K}], len(e[0]) == 0 and len(e[1]) == 0), e in matching_info[{K}]) for e in every('{CC}')))"),
                        ("nothing else is", f"all(pat(implies(not ({ATOM} and k == {K}), (k in matching_info) == (k in old(matching_info)) and same(matching_info[k], old(matching_info)[k])), k in matching_info, matching_info[k]) for k in every('{I2}'))")], **kw)
    w.contract(F + "_potential_children", params={"id1": "int", "id2": "int"}, returns="list[tuple[tup[int],tup[int],int]]", trusted=True,
               note="pairs of children of equal number, from the rules of the two classes listed by that number",
               ensures=[("as many children on both sides", "all(pat(implies(0 <= j and j < len(result), len(result[j][0]) == result[j][2] and len(result[j][1]) == result[j][2] and pot(id1, id2, result[j][0], result[j][1])), result[j]) for j in ints())")], **kw)
    w.ghostfn("pot", ["int", "int", "tup[int]", "tup[int]"], "bool")
    REC = ("only children of rules of the pair are recorded for it", f"all(all(pat(implies(k in matching_info and e in matching_info[k], (len(e[0]) == 0 and len(e[1]) == 0) or pot(k[0], k[1], e[0], e[1])), e in matching_info[k]) for e in every('{CC}')) for k in every('{I2}'))")
    AN = lambda extra: f"all(pat((k in self._ancestors) == (k in old(self._ancestors){extra}), k in self._ancestors) for k in every('{I2}'))"
    GROW = ("matches are kept", f"all(pat(implies(k in old(matching_info), k in matching_info), k in matching_info) for k in every('{I2}'))")
    INV = [("the pair is an ancestor", AN(f" or k == {K}")), GROW, REC]
    w.contract(F + "_find", params={"id1": "int", "id2": "int", "matching_info": MI, "visited": f"set[{I2}]"}, returns="bool", modifies=["matching_info", "visited", "self._ancestors"],
               locals={"children1": "tup[int]", "children2": "tup[int]", "n": "int", "child_order": "list[int]", "blacklist": f"set[{I2}]", "stack": "list[tuple[int,int,set[int]]]", "i1": "int", "i2": "int", "in_use": "set[int]"},
               loops={0: {"inv": INV}, 1: {"inv": INV + [("positions exist", "all(pat(implies(0 <= j and j < len(stack), 0 <= stack[j][0] and stack[j][0] < n and 0 <= stack[j][1] and stack[j][1] < n), stack[j]) for j in ints())"),
                                                          ("one place for each child", "len(child_order) == n and len(children1) == n and len(children2) == n")]}},
               requires=[REC], ensures=[("ancestors as before", AN("")), GROW, REC, ("a match is recorded, or relies on an ancestor", f"implies(result, {K} in matching_info or {K} in old(self._ancestors))"),
                        ("no match is recorded otherwise", f"implies(not result, {K} not in matching_info)")], **kw)
    T3 = "tuple[int,int,set[int]]"
    KEPT = ("kept", "len(stack) >= len(old(stack)) and all(pat(implies(0 <= j and j < len(old(stack)), same(stack[j], old(stack)[j])), stack[j]) for j in ints())")
    new = lambda lo: ("only unused children", f"all(pat(implies(len(old(stack)) <= j and j < len(stack), stack[j][0] == i1 + 1 and {lo} stack[j][1] and stack[j][1] < n and stack[j][1] not in in_use and all((x in stack[j][2]) == (x in in_use or x == stack[j][1]) for x in ints())), stack[j]) for j in ints())")
    every = lambda lo: ("all of them", f"all(pat(implies({lo} b and b < n and b not in in_use, any(len(old(stack)) <= j and j < len(stack) and stack[j][1] == b for j in ints())), b in in_use) for b in ints())")
    w.contract(F + "_extend_stack", props=P, params={"i1": "int", "n": "int", "in_use": "set[int]", "stack": f"list[{T3}]"}, modifies=["stack"],
               loops={0: {"inv": [KEPT, new("n - 1 - _i0 <"), every("n - 1 - _i0 <")]}}, ensures=[KEPT, new("0 <="), every("0 <=")])
    M1 = "ddict[int,ddict[int,set[tup[int]]]]"
    SP = "dict[int,tup[int]]"
    sec = {"id1": "int", "id2": "int", "matching_info": MI, "matching_info1": M1, "matching_info2": M1, "sp1": SP, "sp2": SP}
    R1 = "(id1 in matching_info1 and id2 in matching_info1[id1] and sp1[id1] in matching_info1[id1][id2])"
    R2 = "(id2 in matching_info2 and id1 in matching_info2[id2] and sp2[id2] in matching_info2[id2][id1])"
    BAD = f"({K} not in matching_info or (id1 in sp1 and not {R1}) or (id2 in sp2 and not {R2}))"
    o = lambda e: e.replace("matching_info", "old(matching_info").replace("old(matching_info1", "old(matching_info1)").replace("old(matching_info2", "old(matching_info2)").replace("old(matching_info ", "old(matching_info) ")
    OLDBAD = f"({K} not in old(matching_info) or (id1 in old(sp1) and not {R1.replace('matching_info1', 'old(matching_info1)').replace('sp1[', 'old(sp1)[')}) or (id2 in old(sp2) and not {R2.replace('matching_info2', 'old(matching_info2)').replace('sp2[', 'old(sp2)[')}))"
    member = lambda m: f"all(all(all(pat((b in {m} and c in {m}[b] and x in {m}[b][c]) == (b in old({m}) and c in old({m})[b] and x in old({m})[b][c]), x in {m}[b][c], x in old({m})[b][c]) for x in every('tup[int]')) for c in ints()) for b in ints())"
    w.contract(F + "_inconsistent_with_matching_info", props=P, params=sec, returns="bool", modifies=["matching_info1", "matching_info2"],
               ensures=[("answer", f"result == {OLDBAD}"), ("no choice is added (1)", member("matching_info1")), ("no choice is added (2)", member("matching_info2"))])
    w.contract(F + "_search_matching_info_recursion_base_cases", props=P, params=dict(sec, matched=f"dict[{I2},bool]"), returns="int", modifies=["matching_info1", "matching_info2", "sp1", "sp2", "matching_info"],
               ensures=[("no match", f"(result == -1) == {OLDBAD}"),
                        ("match", f"(result == 1) == (not {OLDBAD} and ({E} in old(matching_info)[{K}] or {K} in matched))"), ("else undecided", "result == 1 or result == -1 or result == 0"),
                        ("atoms are chosen, nothing else", f"all(pat(implies(not (b == id1 and not {OLDBAD} and {E} in old(matching_info)[{K}]), (b in sp1) == (b in old(sp1)) and sp1[b] == old(sp1)[b]), b in sp1) for b in ints()) and "
                         f"all(pat(implies(not (b == id2 and not {OLDBAD} and {E} in old(matching_info)[{K}]), (b in sp2) == (b in old(sp2)) and sp2[b] == old(sp2)[b]), b in sp2) for b in ints())")])
    gone = lambda sp, cl, r, i: f"all(pat((b in {sp}) == (b in old({sp}) and b not in {cl} and not (not {r} and b == {i})) and implies(b in {sp}, {sp}[b] == old({sp})[b]), b in {sp}) for b in ints())"
    so = lambda sp, d: f"all(pat((b in {sp}) == (b in old({sp}) and b not in {d}) and implies(b in {sp}, {sp}[b] == old({sp})[b]), b in {sp}) for b in ints())"
    w.contract(F + "_clean_descendants", props=P, params={"to_clean1": "set[int]", "to_clean2": "set[int]", "id1": "int", "id2": "int", "sp1": SP, "sp2": SP, "rec1": "bool", "rec2": "bool"}, modifies=["sp1", "sp2"],
               loops={0: {"inv": [("first so far", so("sp1", "_seen0"))]}, 1: {"inv": [("second so far", so("sp2", "_seen1"))]}},
               ensures=[("exactly the failed choices are undone (1)", gone("sp1", "to_clean1", "rec1", "id1")), ("exactly the failed choices are undone (2)", gone("sp2", "to_clean2", "rec2", "id2"))])
    return w
