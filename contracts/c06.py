"""C06: union-find with explanations.

Ghost `root` gives each label its representative; `marked` is the set of labels passed to set_verified from
outside.  "b is reachable from a along recorded edges" is stated without a fixed point: every set of labels
that is closed under the recorded edges and contains a contains b (quantification over all sets)."""
from pyvc.world import World

ASSUMPTIONS = [
    "termination of the pointer chase of __getitem__ and of the searches is not proved (bounded check covers it)",
    "completeness of connect_cycles (every cycle of one-way edges is merged) is bounded, its soundness is proved",
]


def world(repo="/repo"):
    w = World(repo)
    # Z marks the sets the proofs talk about (it holds of every set; only a trigger)
    w.ghostfn("Z", ["set[int]"], "bool")
    w.axiom("every set is a set (definition of the marker Z)", {"S": "set[int]"}, "Z(S)", ["Z(S)"])
    w.macro("closed(q, S)", "all(all(implies(a in S and b in q.vertices[a], b in S) for b in ints()) for a in ints())")
    w.macro("sound(q, a, b)", "all(pat(implies(Z(S) and closed(q, S) and a in S, b in S), Z(S)) for S in every('set[int]'))")
    UFI = [
        ("parents stay in the class", "all(pat(implies(l in q.parents, q.parents[l] in q.parents and q.root[q.parents[l]] == q.root[l]), q.parents[l]) for l in ints())"),
        ("roots are their own representatives", "all(pat(q.root[q.root[l]] == q.root[l], q.root[l]) for l in ints())"),
        ("fixed points are roots", "all(pat(implies(l in q.parents, (q.parents[l] == l) == (q.root[l] == l)), q.parents[l]) for l in ints())"),
        ("unseen labels are alone", "all(pat((l in q.parents) == (q.root[l] in q.parents) and implies(l not in q.parents, q.root[l] == l), q.root[l]) for l in ints())"),
        ("weights", "all(implies(l in q.parents, l in q.weights) for l in ints())"),
    ]
    w.macro("uf(q)", " and ".join(x for _, x in UFI))
    INV = [(a, x.replace("q.", "self.")) for a, x in UFI] + [
        ("marked labels are verified", "all(implies(m in self.marked, self.root[m] in self.verified_roots) for m in ints())"),
        ("verified roots come from marked labels", "all(implies(r in self.verified_roots and self.root[r] == r, self.wit[r] in self.marked and self.root[self.wit[r]] == r) for r in ints())"),
        ("verified roots were roots", "all(implies(r in self.verified_roots, self.root[r] in self.verified_roots) for r in ints())"),
        ("equivalent labels reach each other", "all(pat(implies(Z(S) and closed(self, S), all(all(pat(implies(self.root[a] == self.root[b] and a in S, b in S), (self.root[a], self.root[b])) for b in ints()) for a in ints())), Z(S)) for S in every('set[int]'))"),
        ("one-way edges are recorded edges between classes", "all(pat(implies(Z(S) and closed(self, S), all(all(implies(e in self._one_way_vertices[s] and s in S, e in S) for e in ints()) for s in ints())), Z(S)) for S in every('set[int]'))"),
    ]
    w.record("EquivalenceDB", {
        "parents": "dict[int,int]", "weights": "dict[int,int]", "verified_roots": "set[int]",
        "vertices": "ddict[int,set[int]]", "_one_way_vertices": "ddict[int,set[int]]",
        "func_times": "opaque", "func_calls": "opaque"}, INV, src=("equiv_db", "EquivalenceDB"),
        ghost={"root": "map[int,int]", "marked": "set[int]", "wit": "map[int,int]"})
    P = ["C06"]
    Q = "equiv_db.EquivalenceDB."
    kw = dict(self_type="EquivalenceDB", props=P)
    UF = ["self.parents", "self.weights"]
    SAMEV = ("edges kept", "all(all((b in self.vertices[a]) == (b in old(self.vertices)[a]) for b in ints()) for a in ints())")
    SEEN = ("seen labels stay", "all(implies(l in old(self.parents), l in self.parents) for l in ints())")
    w.contract(Q + "__init__", is_init=True,
               ghost_updates={"self.root": "mapof('int', 'int', lambda l: l)", "self.wit": "mapof('int', 'int', lambda l: l)",
                              "self.marked": "setof('int', lambda l: False)"},
               ensures=[("nothing equivalent", "all(self.root[l] == l for l in ints())"), ("no edge", "all(all(b not in self.vertices[a] for b in ints()) for a in ints())")], **kw)
    w.contract(Q + "__getitem__", params={"comb_class": "int"}, returns="int", modifies=UF, use_inv=False,
               requires=[("union-find", "uf(self)")],
               loops={0: {"inv": [("path", "len(path) > 0 and root in self.parents and root == self.parents[path[len(path) - 1]] and "
                                   "all(path[k] in self.parents and self.root[path[k]] == self.root[comb_class] for k in range(len(path)))")]},
                      1: {"inv": [("compressed", "all(implies(l in self.parents, (self.parents[l] == old(self.parents)[l] or self.parents[l] == root)) for l in ints()) and "
                                   "all((l in self.parents) == (l in old(self.parents)) for l in ints())"),
                                  ("only the class changes", "all(implies(l in self.parents and self.parents[l] != old(self.parents)[l], self.root[l] == root) for l in ints())"),
                                  ("fixed points", "all(implies(l in self.parents, (self.parents[l] == l) == (self.root[l] == l)) for l in ints())"),
                                  ("root", "root == self.root[comb_class] and self.root[root] == root and root in self.parents")]}},
               ensures=[(a, x.replace("q.", "self.")) for a, x in UFI] + [("representative", "result == self.root[comb_class]"), ("seen", "comb_class in self.parents"), SEEN,
                        ("nothing else is added", "all(implies(l in self.parents, l in old(self.parents) or l == comb_class) for l in ints())")], **kw)
    w.contract(Q + "equivalent", params={"label": "int", "other_label": "int"}, returns="bool", modifies=UF,
               ensures=[("same representative", "result == (self.root[label] == self.root[other_label])"), SEEN], **kw)
    w.contract(Q + "is_verified", params={"comb_class": "int"}, returns="bool", modifies=UF,
               ensures=[("representative verified", "result == (self.root[comb_class] in self.verified_roots)"), SEEN,
                        ("some equivalent label was marked", "result == any(m in self.marked and self.root[m] == self.root[comb_class] for m in ints())")], **kw)
    w.contract(Q + "set_verified", params={"comb_class": "int"}, modifies=UF + ["self.verified_roots", "self.marked", "self.wit"],
               ghost_updates={"self.marked": "with_(self.marked, comb_class)",
                              "self.wit": "self.wit if self.root[comb_class] in old(self.verified_roots) else store(self.wit, self.root[comb_class], comb_class)"},
               ensures=[("marked", "all((l in self.marked) == (l in old(self.marked) or l == comb_class) for l in ints())"), SEEN], **kw)
    w.contract(Q + "_add_edge", params={"label": "int", "other_label": "int"}, modifies=["self.vertices"],
               ensures=[("this one", "label == other_label or other_label in self.vertices[label]"), ("recorded", "all(all((b in self.vertices[a]) == (b in old(self.vertices)[a] or (a == label and b == other_label and label != other_label)) for b in ints()) for a in ints())")], **kw)
    w.contract(Q + "_set_equivalent", params={"label": "int", "other_label": "int"},
               requires=[("each reaches the other", "sound(self, label, other_label) and sound(self, other_label, label)")],
               modifies=UF + ["self.verified_roots", "self.root", "self.wit"],
               inline_calls=[Q + "set_verified", Q + "is_verified"],
               loops={0: {"leave": [
                   ("self.wit", "store(self.wit, heaviest, self.wit[self.root[label]] if self.root[label] in self.verified_roots else self.wit[self.root[other_label]])"),
                   ("self.root", "mapof('int', 'int', lambda l: heaviest if self.root[l] == old(self.root)[label] or self.root[l] == old(self.root)[other_label] else self.root[l])")]}},
               ensures=[("merged", "self.root[label] == self.root[other_label]"),
                        ("the two classes become one, no other changes",
                         "all(all((self.root[a] == self.root[b]) == (old(self.root)[a] == old(self.root)[b] or "
                         "((old(self.root)[a] == old(self.root)[label] or old(self.root)[a] == old(self.root)[other_label]) and "
                         "(old(self.root)[b] == old(self.root)[label] or old(self.root)[b] == old(self.root)[other_label]))) for b in ints()) for a in ints())"), SEEN], **kw)
    MERGE = ("classes only grow", "all(all(implies(old(self.root)[a] == old(self.root)[b], self.root[a] == self.root[b]) for b in ints()) for a in ints())")
    w.contract(Q + "add_two_way_edge", params={"label": "int", "other_label": "int"},
               modifies=UF + ["self.verified_roots", "self.root", "self.wit", "self.vertices"],
               ensures=[("equivalent", "self.root[label] == self.root[other_label]"), MERGE,
                        ("recorded", "all(all((b in self.vertices[a]) == (b in old(self.vertices)[a] or (label != other_label and ((a == label and b == other_label) or (a == other_label and b == label)))) for b in ints()) for a in ints())")], **kw)
    w.contract(Q + "add_one_way_edge", params={"label": "int", "other_label": "int"},
               modifies=UF + ["self.vertices", "self._one_way_vertices"],
               ensures=[("recorded", "all(all((b in self.vertices[a]) == (b in old(self.vertices)[a] or (a == label and b == other_label and label != other_label)) for b in ints()) for a in ints())"),
                        ("edge between the classes", "self.root[other_label] in self._one_way_vertices[self.root[label]]"),
                        ("edges between classes kept", "all(all(implies(e in old(self._one_way_vertices)[s], e in self._one_way_vertices[s]) for e in ints()) for s in ints())")], **kw)
    w.macro("owsound(q, ow)", "all(pat(implies(Z(S) and closed(q, S), all(all(implies(e in ow[s] and s in S, e in S) for e in ints()) for s in ints())), Z(S)) for S in every('set[int]'))")
    w.macro("owroots(q, ow)", "all(all(implies(e in ow[s], q.root[s] == s and q.root[e] == e and s != e) for e in ints()) for s in ints())")
    w.contract(Q + "get_one_way_vertices", returns="ddict[int,set[int]]", modifies=UF + ["self._one_way_vertices"],
               loops={0: {"inv": [("union-find", "uf(self)"), SEEN, ("recorded edges", "owsound(self, res)"), ("between roots", "owroots(self, res)"),
                                  ("complete", "all(all(implies(s in _seen0 and e in self._one_way_vertices[s] and self.root[s] != self.root[e], self.root[e] in res[self.root[s]]) for e in ints()) for s in ints())")]},
                      1: {"inv": [("union-find", "uf(self)"), SEEN, ("recorded edges", "owsound(self, res)"), ("between roots", "owroots(self, res)"),
                                  ("start", "start == self.root[_it0]"),
                                  ("complete", "all(all(implies(s in _seen0 and e in self._one_way_vertices[s] and self.root[s] != self.root[e], self.root[e] in res[self.root[s]]) for e in ints()) for s in ints()) and "
                                   "all(implies(e in _seen1 and start != self.root[e], self.root[e] in res[start]) for e in ints())")]}},
               ensures=[("recorded edges", "owsound(self, result)"), ("between roots", "owroots(self, result)"), SEEN,
                        ("complete", "all(all(implies(e in old(self._one_way_vertices)[s] and self.root[s] != self.root[e], self.root[e] in result[self.root[s]]) for e in ints()) for s in ints())")], **kw)
    ALLM = UF + ["self.verified_roots", "self.root", "self.wit", "self._one_way_vertices", "self.vertices"]
    w.macro("pathsound(q, p)", "all(pat(implies(Z(S) and closed(q, S), all(all(implies(0 <= i and i <= j and j < len(p) and p[i] in S, p[j] in S) for j in ints()) for i in ints())), Z(S)) for S in every('set[int]'))")
    CINV = INV + [MERGE, SEEN, SAMEV,
                  ("adjacency recorded", "owsound(self, one_way_vertices)"),
                  ("waiting paths are paths", "all(len(stack[k]) > 0 and pathsound(self, stack[k]) for k in range(len(stack)))")]
    INNER = CINV + [("path", "len(path) > 0 and end == path[len(path) - 1] and pathsound(self, path)")]
    w.contract(Q + "connect_cycles", modifies=ALLM, locals={"stack": "list[tup[int]]", "visited": "set[int]"},
               inline_calls=[Q + "get_one_way_vertices"],
               loops={0: {"inv": CINV}, 1: {"inv": INNER},
                      2: {"inv": INNER + [("new end", "new_end in one_way_vertices[end]")]},
                      3: {"inv": INNER + [("new end", "new_end in one_way_vertices[end] and 0 <= i and i < len(path) - 1 and self.root[path[i]] == self.root[new_end]")]},
                      4: {"inv": INV + [SEEN, ("recorded edges", "owsound(self, res)")]},
                      5: {"inv": INV + [SEEN, ("recorded edges", "owsound(self, res)"), ("start", "start == self.root[_it4]")]}},
               ensures=[MERGE, SAMEV], **kw)
    w.macro("walk(q, p)", "all(implies(0 <= m and m + 1 < len(p), p[m + 1] in q.vertices[p[m]]) for m in ints())")
    w.macro("found(w_, vis, dq, deq)", "w_ in vis or (0 <= dq[w_] and dq[w_] < len(deq) and deq[dq[w_]][len(deq[dq[w_]]) - 1] == w_)")
    FP = INV + [SAMEV, SEEN,
                ("same class", "self.root[comb_class] == self.root[other_comb_class]"),
                ("waiting paths are walks from the first label", "all(len(dequeue[k]) > 0 and dequeue[k][0] == comb_class and walk(self, dequeue[k]) for k in range(len(dequeue)))"),
                ("target not passed", "other_comb_class not in visited")]
    w.contract(Q + "find_path", params={"comb_class": "int", "other_comb_class": "int"}, returns="tup[int]",
               modifies=UF + ["self.vertices"], locals={"dequeue": "list[tup[int]]", "visited": "set[int]", "path": "tup[int]"},
               raises={"KeyError": "self.root[comb_class] != self.root[other_comb_class]"},
               gvars={"dq": ("map[int,int]", "mapof('int', 'int', lambda l: 0)"), "fl": ("bool", "False")},
               loops={0: {"inv": FP + [("no inner search", "not fl"), ("insides of waiting paths were visited", "all(all(dequeue[k][m] in visited for m in range(len(dequeue[k]) - 1)) for k in range(len(dequeue)))"),
                                       ("start is known", "found(comb_class, visited, dq, dequeue)"),
                                       ("neighbours of visited labels are known", "all(all(implies(v in visited and x in self.vertices[v], found(x, visited, dq, dequeue)) for x in ints()) for v in ints())")],
                          "step": [("dq", "dq if fl else mapof('int', 'int', lambda l: dq[l] - 1)"), ("fl", "False")],
                          "after": ["Z(visited)"]},
                      1: {"enter": [("dq", "mapof('int', 'int', lambda l: dq[l] - 1)"), ("fl", "True")],
                          "inv": FP + [("inner search", "fl"), ("this path", "len(path) > 0 and path[0] == comb_class and walk(self, path) and end == path[len(path) - 1] and end != other_comb_class and "
                                        "all(path[m] in visited for m in range(len(path) - 1))"),
                                       ("insides of waiting paths were visited", "all(all(dequeue[k][m] in visited or dequeue[k][m] == end for m in range(len(dequeue[k]) - 1)) for k in range(len(dequeue)))"),
                                       ("start is known", "comb_class == end or found(comb_class, visited, dq, dequeue)"),
                                       ("neighbours of visited labels are known", "all(all(implies(v in visited and x in self.vertices[v], x == end or found(x, visited, dq, dequeue)) for x in ints()) for v in ints())"),
                                       ("neighbours seen are known", "all(implies(x in _seen1, x == end or found(x, visited, dq, dequeue)) for x in ints())")],
                          "step": [("dq", "store(dq, new_end, len(dequeue) - 1) if len(dequeue) > 0 and dequeue[len(dequeue) - 1][len(dequeue[len(dequeue) - 1]) - 1] == new_end else dq")]}},
               ensures=[("from the first label", "len(result) > 0 and result[0] == comb_class"), ("to the second", "result[len(result) - 1] == other_comb_class"),
                        ("along recorded edges", "walk(self, result)"), SAMEV], **kw)
    return w
