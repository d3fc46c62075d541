"""C16: the default work queue.

Ghost history: `added` (labels passed to add), `stopped` (labels told to stop), `noninf`/`noninit`
(labels marked not-inferrable / not-initial from outside), `Hinf` (labels whose inferral packet was
handed out), `H` (pairs (label, strategy) handed out), and the same for packets made (handed out or
still staged): `IssI`, `Iss`.  wpos/lev/posn say where a live label waits: in `working`, in which deque
of `curr_level`, and at which place of it.  phase/pos give each strategy of the pack its set and its
place in it, so their existence says that the pack's strategies are distinct."""
from pyvc.world import World

ASSUMPTIONS = [
    "the strategies of a pack are pairwise distinct (StrategyPack.add_* refuses duplicates)",
    "termination of the loops of __next__/_populate_staging is not proved (bounded check of C16 covers it)",
    "CSSQueue.__init__: the pack's strategy lists are read as tuples",
]
PS = "tuple[int,Strat]"


def world(repo="/repo"):
    w = World(repo)
    w.u("Strat")
    w.nt("WorkPacket", [("label", "int"), ("strategies", "tup[Strat]"), ("inferral", "bool")],
         src=("typing", "WorkPacket"))
    w.ghostfn("phase", ["Strat"], "int")
    w.ghostfn("pos", ["Strat"], "int")
    w.macro("ps(l, s)", f"mk('{PS}', l, s)")
    w.macro("live(q, l)", "l not in q.ignore")
    w.macro("infdone(q, l)", "len(q.inferral_strategies) == 0 or l in q._inferral_expanded")
    w.macro("initdone(q, l)", "len(q.initial_strategies) == 0 or l in q._initial_expanded")
    w.macro("handedInf(q, l)", "len(q.inferral_strategies) == 0 or l in q.Hinf or l in q.noninf")
    w.macro("handedInit(q, l)", "l in q.noninit or all(ps(l, q.initial_strategies[k]) in q.H for k in range(len(q.initial_strategies)))")
    w.macro("handedExp(q, l, n)", "all(implies(i < n, all(ps(l, q.expansion_strats[i][k]) in q.H for k in range(len(q.expansion_strats[i]))))"
            " for i in range(len(q.expansion_strats)))")
    w.macro("complete(q, l)", "handedInf(q, l) and handedInit(q, l) and handedExp(q, l, len(q.expansion_strats))")
    w.macro("emptycurr(q)", "all(len(q.curr_level[j]) == 0 for j in range(len(q.curr_level)))")
    w.macro("drained(q)", "len(q.staging) == 0 and len(q.working) == 0 and all(l not in q.next_level for l in ints()) and emptycurr(q)")
    w.macro("isinit(q, s)", "phase(s) == 0 and 0 <= pos(s) and pos(s) < len(q.initial_strategies) and q.initial_strategies[pos(s)] == s")
    w.macro("isexp(q, s)", "1 <= phase(s) and phase(s) <= len(q.expansion_strats) and 0 <= pos(s) and "
            "pos(s) < len(q.expansion_strats[phase(s) - 1]) and q.expansion_strats[phase(s) - 1][pos(s)] == s")
    w.macro("nset(q, s)", "len(q.initial_strategies) if phase(s) == 0 else len(q.expansion_strats[phase(s) - 1])")
    w.macro("place(q, s)", "len(q.staging) - nset(q, s) + pos(s)")
    INV = [
        ("strategies of the pack are distinct",
         "all(phase(self.initial_strategies[k]) == 0 and pos(self.initial_strategies[k]) == k for k in range(len(self.initial_strategies))) and "
         "all(all(phase(self.expansion_strats[i][k]) == i + 1 and pos(self.expansion_strats[i][k]) == k for k in range(len(self.expansion_strats[i])))"
         " for i in range(len(self.expansion_strats)))"),
        ("one deque per expansion set and one more", "len(self.curr_level) == len(self.expansion_strats) + 1"),
        ("staged packets have the form of the pack",
         "all((implies(self.staging[k].inferral, self.staging[k].strategies == self.inferral_strategies) and "
         "implies(not self.staging[k].inferral, len(self.staging[k].strategies) == 1 and "
         "(isinit(self, self.staging[k].strategies[0]) or isexp(self, self.staging[k].strategies[0]))))"
         " for k in range(len(self.staging)))"),
        ("staged packets are for one label", "all(self.staging[k].label == self.staging[0].label for k in range(len(self.staging)))"),
        ("staged packets are in the order of the pack", "all(implies(self.staging[k].inferral, k == 0) and "
         "implies(not self.staging[k].inferral, k == place(self, self.staging[k].strategies[0])) for k in range(len(self.staging)))"),
        ("staged packets of live labels were not handed out",
         "all(implies(live(self, self.staging[k].label), implies(self.staging[k].inferral, self.staging[k].label in self.IssI and self.staging[k].label not in self.Hinf) and "
         "implies(not self.staging[k].inferral, ps(self.staging[k].label, self.staging[k].strategies[0]) in self.Iss and "
         "ps(self.staging[k].label, self.staging[k].strategies[0]) not in self.H)) for k in range(len(self.staging)))"),
        ("handed packets were made", "all(implies(l in self.Hinf, l in self.IssI) for l in ints()) and "
         "all(all(implies(ps(l, s) in self.H, ps(l, s) in self.Iss) for s in every('Strat')) for l in ints())"),
        ("inferral made and not handed is staged", "all(implies(live(self, l) and l in self.IssI and l not in self.Hinf, len(self.staging) > 0 and self.staging[0].label == l and "
         "self.staging[0].inferral) for l in ints())"),
        ("strategies made and not handed are staged", "all(all(implies(live(self, l) and ps(l, s) in self.Iss and ps(l, s) not in self.H, "
         "0 <= place(self, s) and place(self, s) < len(self.staging) and self.staging[place(self, s)].label == l and not self.staging[place(self, s)].inferral and "
         "self.staging[place(self, s)].strategies[0] == s) for s in every('Strat')) for l in ints())"),
        ("made inferral is flagged", "all(implies(live(self, l) and l in self.IssI, l in self._inferral_expanded) for l in ints())"),
        ("made initial strategies are flagged", "all(all(implies(live(self, l) and phase(s) == 0 and ps(l, s) in self.Iss, l in self._initial_expanded) for s in every('Strat')) for l in ints())"),
        ("made expansion strategies moved the label on", "all(all(implies(live(self, l) and phase(s) > 0 and ps(l, s) in self.Iss, self.lev[l] >= phase(s)) for s in every('Strat')) for l in ints())"),
        ("flagged inferral was made", "all(implies(live(self, l) and l in self._inferral_expanded, l in self.IssI or l in self.noninf) for l in ints())"),
        ("flagged initial was made", "all(implies(live(self, l) and l in self._initial_expanded, l in self.noninit or "
         "all(ps(l, self.initial_strategies[k]) in self.Iss for k in range(len(self.initial_strategies)))) for l in ints())"),
        ("earlier sets were made", "all(all(all(implies(live(self, l) and i < self.lev[l], ps(l, self.expansion_strats[i][k]) in self.Iss)"
         " for k in range(len(self.expansion_strats[i]))) for i in range(len(self.expansion_strats))) for l in ints())"),
        ("queued labels are inferred and initialised", "all(implies(live(self, l) and (l in self.next_level or self.lev[l] >= 0), infdone(self, l) and initdone(self, l)) for l in ints())"),
        ("levels of labels", "all(implies(live(self, l) and self.lev[l] >= 0, self.lev[l] < len(self.curr_level) and 0 <= self.posn[l] and "
         "self.posn[l] < len(self.curr_level[self.lev[l]]) and self.curr_level[self.lev[l]][self.posn[l]] == l) for l in ints())"),
        ("a live label is in one place of the level", "all(all(implies(live(self, self.curr_level[j][m]), self.lev[self.curr_level[j][m]] == j and self.posn[self.curr_level[j][m]] == m)"
         " for m in range(len(self.curr_level[j]))) for j in range(len(self.curr_level)))"),
        ("waiting labels", "all(implies(self.wpos[l] >= 0, self.wpos[l] < len(self.working) and self.working[self.wpos[l]] == l) for l in ints())"),
        ("added labels are queued or stopped", "all(implies(l in self.added, not live(self, l) or self.wpos[l] >= 0 or l in self.next_level or self.lev[l] >= 0) for l in ints())"),
        ("labels leave only when stopped or complete", "all(implies(l in self.ignore, l in self.stopped or complete(self, l)) for l in ints())"),
        ("staged packets come after what precedes them", "all(implies(live(self, self.staging[k].label) and not self.staging[k].inferral, "
         "(handedInf(self, self.staging[k].label) or (k > 0 and self.staging[0].inferral)) and "
         "implies(phase(self.staging[k].strategies[0]) > 0, handedInf(self, self.staging[k].label) and handedInit(self, self.staging[k].label) and "
         "handedExp(self, self.staging[k].label, phase(self.staging[k].strategies[0]) - 1))) for k in range(len(self.staging)))"),
    ]
    w.record("DefaultQueue", {
        "inferral_strategies": "tup[Strat]", "initial_strategies": "tup[Strat]", "expansion_strats": "tup[tup[Strat]]",
        "working": "list[int]", "next_level": "counter[int]", "curr_level": "list[list[int]]",
        "_inferral_expanded": "set[int]", "_initial_expanded": "set[int]", "ignore": "set[int]",
        "queue_sizes": "list[int]", "staging": "list[WorkPacket]"}, INV,
        src=("class_queue", "DefaultQueue"),
        ghost={"added": "set[int]", "stopped": "set[int]", "noninf": "set[int]", "noninit": "set[int]",
               "Hinf": "set[int]", "H": f"set[{PS}]", "IssI": "set[int]", "Iss": f"set[{PS}]",
               "wpos": "map[int,int]", "lev": "map[int,int]", "posn": "map[int,int]", "gi": "int", "gn": "int", "gm": "int"})
    P = ["C16"]
    Q = "class_queue.DefaultQueue."
    kw = dict(self_type="DefaultQueue", props=P)
    w.record("StrategyPack", {"inferral_strats": "tup[Strat]", "initial_strats": "tup[Strat]", "expansion_strats": "tup[tup[Strat]]"}, [], src=("strategies.strategy_pack", "StrategyPack"))
    EMPTY = ["added", "stopped", "noninf", "noninit", "Hinf", "IssI"]
    w.contract(Q + "__init__", params={"pack": "StrategyPack"}, is_init=True,
               inline_calls=["class_queue.CSSQueue.__init__"],
               ghost_updates=dict({f"self.{x}": "setof('int', lambda l: False)" for x in EMPTY},
                                  **{f"self.{x}": f"setof('{PS}', lambda p: False)" for x in ("H", "Iss")},
                                  **{f"self.{x}": "mapof('int', 'int', lambda l: -1)" for x in ("wpos", "lev", "posn")}),
               requires=[("strategies are distinct", "all(phase(pack.initial_strats[k]) == 0 and pos(pack.initial_strats[k]) == k for k in range(len(pack.initial_strats))) and "
         "all(all(phase(pack.expansion_strats[i][k]) == i + 1 and pos(pack.expansion_strats[i][k]) == k for k in range(len(pack.expansion_strats[i])))"
         " for i in range(len(pack.expansion_strats)))")],
               lemmas=["same(self.expansion_strats, pack.expansion_strats)"],
               ensures=[("empty queue", "drained(self)"), ("no level done", "len(self.queue_sizes) == 0"),
                        ("the pack's strategies", "same(self.inferral_strategies, pack.inferral_strats) and same(self.initial_strategies, pack.initial_strats) and same(self.expansion_strats, pack.expansion_strats)")], **kw)
    w.contract(Q + "can_do_inferral", params={"label": "int"}, returns="bool", use_inv=False,
               ensures=[("flag", "result == (len(self.inferral_strategies) > 0 and label not in self._inferral_expanded)")], **kw)
    w.contract(Q + "can_do_initial", params={"label": "int"}, returns="bool", use_inv=False,
               ensures=[("flag", "result == (len(self.initial_strategies) > 0 and label not in self._initial_expanded)")], **kw)
    w.contract(Q + "can_do_expansion", params={"label": "int", "idx": "int"}, returns="bool", use_inv=False,
               ensures=[("live label, existing set", "result == (label not in self.ignore and idx < len(self.expansion_strats))")], **kw)
    w.contract(Q + "levels_completed", returns="int", use_inv=False, note="property",
               ensures=[("levels", "result == len(self.queue_sizes)")], **kw)
    w.contract(Q + "add", params={"label": "int"}, modifies=["self.working", "self.next_level", "self.added", "self.wpos"],
               ghost_updates={"self.added": "with_(self.added, label)",
                              "self.wpos": "self.wpos if len(self.working) == len(old(self.working)) else store(self.wpos, label, len(old(self.working)))"},
               ensures=[("recorded", "label in self.added and all(implies(l != label, (l in self.added) == (l in old(self.added))) for l in ints())")], **kw)
    w.contract(Q + "set_not_inferrable", params={"label": "int"}, modifies=["self._inferral_expanded", "self.noninf"],
               ghost_updates={"self.noninf": "with_(self.noninf, label)"},
               ensures=[("no inferral from now on", "label in self.ignore or label in self._inferral_expanded")], **kw)
    w.contract(Q + "set_not_initial", params={"label": "int"}, modifies=["self._initial_expanded", "self.noninit"],
               ghost_updates={"self.noninit": "with_(self.noninit, label)"},
               ensures=[("no initial from now on", "label in self.ignore or label in self._initial_expanded")], **kw)
    STOPM = ["self.ignore", "self._inferral_expanded", "self._initial_expanded", "self.next_level", "self.stopped"]
    for nm in ("set_stop_yielding", "set_verified"):
        w.contract(Q + nm, params={"label": "int"}, modifies=STOPM,
                   ghost_updates={"self.stopped": "with_(self.stopped, label)"},
                   inline_calls=[Q + "set_stop_yielding"],
                   ensures=[("stopped", "label in self.ignore and all(implies(l in old(self.ignore), l in self.ignore) for l in ints())")], **kw)
    # the two ways packets are staged
    w.macro("nI(q, l)", "1 if len(q.inferral_strategies) > 0 and l not in q._inferral_expanded else 0")
    w.macro("nN(q, l)", "len(q.initial_strategies) if len(q.initial_strategies) > 0 and l not in q._initial_expanded else 0")
    w.contract(Q + "_iter_helper_working", yields="WorkPacket", use_inv=False,
               requires=[("work", "len(self.working) > 0")],
               modifies=["self.working", "self.next_level", "self._inferral_expanded", "self._initial_expanded", "self.IssI", "self.Iss", "self.wpos", "self.gn", "self.gm"],
               inline_calls=[Q + "set_not_inferrable", Q + "set_not_initial"],
               ghost_updates={
                   "self.gn": "old(nI(self, self.working[0]))", "self.gm": "old(nN(self, self.working[0]))",
                   "self.IssI": "with_(self.IssI, label) if old(nI(self, self.working[0])) == 1 else self.IssI",
                   "self.Iss": f"setof('{PS}', lambda p: p in self.Iss or (old(nN(self, self.working[0])) > 0 and p[0] == label and isinit(self, p[1])))",
                   "self.wpos": "mapof('int', 'int', lambda l: self.wpos[l] - 1 if self.wpos[l] >= 0 else -1)"},
               loops={0: {"inv": [
                   ("yielded", "len(_yield) == old(nI(self, self.working[0])) + _i0 and label == old(self.working[0]) and "
                    "implies(old(nI(self, self.working[0])) == 1, _yield[0].inferral and _yield[0].label == label and _yield[0].strategies == self.inferral_strategies) and "
                    "all((not _yield[old(nI(self, self.working[0])) + k].inferral and _yield[old(nI(self, self.working[0])) + k].label == label and "
                    "len(_yield[old(nI(self, self.working[0])) + k].strategies) == 1 and "
                    "_yield[old(nI(self, self.working[0])) + k].strategies[0] == self.initial_strategies[k]) for k in range(_i0))")]}},
               ensures=[("how many", "self.gn == old(nI(self, self.working[0])) and self.gm == old(nN(self, self.working[0]))"),
                        ("first label taken", "len(self.working) == len(old(self.working)) - 1 and all(self.working[k] == old(self.working)[k + 1] for k in range(len(self.working)))"),
                        ("one packet for inferral, one per initial strategy", "len(result) == self.gn + self.gm"),
                        ("inferral first", "implies(self.gn == 1, result[0].inferral and result[0].label == old(self.working)[0] and result[0].strategies == self.inferral_strategies)"),
                        ("then the initial strategies", "all((not result[k].inferral and result[k].label == old(self.working)[0] and len(result[k].strategies) == 1 and "
                         "result[k].strategies[0] == self.initial_strategies[k - self.gn]) for k in range(self.gn, len(result)))"),
                        ("flags", "all((l in self._inferral_expanded) == (l in old(self._inferral_expanded) or (l == old(self.working)[0] and self.gn == 1 and l not in self.ignore)) for l in ints()) and "
                         "all((l in self._initial_expanded) == (l in old(self._initial_expanded) or (l == old(self.working)[0] and len(self.initial_strategies) > 0 and l not in self.ignore)) for l in ints())"),
                        ("goes to the next level", "all((l in self.next_level) == (l in old(self.next_level) or l == old(self.working)[0]) for l in ints())"),
                        ("made", "all((l in self.IssI) == (l in old(self.IssI) or (l == old(self.working)[0] and self.gn == 1)) for l in ints()) and "
                         "all(all((ps(l, s) in self.Iss) == (ps(l, s) in old(self.Iss) or (self.gm > 0 and l == old(self.working)[0] and isinit(self, s))) for s in every('Strat')) for l in ints())"),
                        ("places", "all(self.wpos[l] == (old(self.wpos)[l] - 1 if old(self.wpos)[l] >= 0 else -1) for l in ints())")],
               **kw)
    w.macro("firstne(q, j)", "0 <= j and j < len(q.curr_level) and len(q.curr_level[j]) > 0 and all(implies(i < j, len(q.curr_level[i]) == 0) for i in range(len(q.curr_level)))")
    w.contract(Q + "_iter_helper_curr", yields="WorkPacket", use_inv=False,
               requires=[("level", "any(len(self.curr_level[j]) > 0 for j in range(len(self.curr_level))) and len(self.curr_level) == len(self.expansion_strats) + 1")],
               modifies=["self.curr_level", "self.ignore", "self._inferral_expanded", "self._initial_expanded", "self.next_level", "self.Iss", "self.lev", "self.posn", "self.gi"],
               inline_calls=[Q + "set_stop_yielding"],
               ghost_updates={
                   "self.gi": "idx",
                   "self.Iss": f"setof('{PS}', lambda p: p in self.Iss or (p[0] == label and phase(p[1]) == idx + 1 and isexp(self, p[1])))",
                   "self.posn": "mapof('int', 'int', lambda l: len(old(self.curr_level)[idx + 1]) if l == label else (self.posn[l] - 1 if self.lev[l] == idx else self.posn[l]))",
                   "self.lev": "store(self.lev, label, idx + 1)"},
               loops={0: {"inv": [
                   ("yielded", "len(_yield) == _i0 and 0 <= idx and idx < len(self.expansion_strats) and label == old(self.curr_level)[idx][0] and "
                    "all((not _yield[k].inferral and _yield[k].label == label and len(_yield[k].strategies) == 1 and _yield[k].strategies[0] == self.expansion_strats[idx][k]) for k in range(_i0))")]}},
               ensures=[("deques stay", "len(self.curr_level) == len(old(self.curr_level)) and old(firstne(self, self.gi)) == old(firstne(self, self.gi))"),
                        ("first deque that is not empty", "0 <= self.gi and self.gi < len(self.curr_level) and len(old(self.curr_level)[self.gi]) > 0 and "
                         "all(implies(i < self.gi, len(old(self.curr_level)[i]) == 0) for i in range(len(self.curr_level)))"),
                        ("label taken", "len(self.curr_level[self.gi]) == len(old(self.curr_level)[self.gi]) - 1 and "
                         "all(self.curr_level[self.gi][m] == old(self.curr_level)[self.gi][m + 1] for m in range(len(self.curr_level[self.gi])))"),
                        ("last deque: stop", "implies(self.gi == len(self.expansion_strats), len(result) == 0 and "
                         "all((l in self.ignore) == (l in old(self.ignore) or l == old(self.curr_level)[self.gi][0]) for l in ints()) and "
                         "all(implies(l != old(self.curr_level)[self.gi][0], (l in self.next_level) == (l in old(self.next_level)) and (l in self._inferral_expanded) == (l in old(self._inferral_expanded)) and (l in self._initial_expanded) == (l in old(self._initial_expanded))) for l in ints()) and "
                         "all(implies(i != self.gi, len(self.curr_level[i]) == 0) for i in range(len(self.curr_level))))"),
                        ("other deques: hand on", "implies(self.gi < len(self.expansion_strats), same(self.ignore, old(self.ignore)) and same(self.next_level, old(self.next_level)) and "
                         "same(self._inferral_expanded, old(self._inferral_expanded)) and same(self._initial_expanded, old(self._initial_expanded)) and "
                         "len(result) == len(self.expansion_strats[self.gi]) and all((not result[k].inferral and result[k].label == old(self.curr_level)[self.gi][0] and "
                         "len(result[k].strategies) == 1 and result[k].strategies[0] == self.expansion_strats[self.gi][k]) for k in range(len(result))) and "
                         "len(self.curr_level[self.gi + 1]) == len(old(self.curr_level)[self.gi + 1]) + 1 and self.curr_level[self.gi + 1][len(old(self.curr_level)[self.gi + 1])] == old(self.curr_level)[self.gi][0] and "
                         "all(self.curr_level[self.gi + 1][m] == old(self.curr_level)[self.gi + 1][m] for m in range(len(old(self.curr_level)[self.gi + 1]))) and "
                         "all(implies(i != self.gi and i != self.gi + 1, same(self.curr_level[i], old(self.curr_level)[i])) for i in range(len(self.curr_level))))"),
                        ("made", "all(all((ps(l, s) in self.Iss) == (ps(l, s) in old(self.Iss) or (l == old(self.curr_level)[self.gi][0] and phase(s) == self.gi + 1 and isexp(self, s))) for s in every('Strat')) for l in ints())"),
                        ("places", "all(self.lev[l] == (self.gi + 1 if l == old(self.curr_level)[self.gi][0] else old(self.lev)[l]) for l in ints()) and "
                         "all(self.posn[l] == (len(old(self.curr_level)[self.gi + 1]) if l == old(self.curr_level)[self.gi][0] else (old(self.posn)[l] - 1 if old(self.lev)[l] == self.gi else old(self.posn)[l])) for l in ints())")],
               **kw)
    w.contract(Q + "_change_level",
               requires=[("everything else is empty", "len(self.staging) == 0 and len(self.working) == 0 and emptycurr(self)")],
               modifies=["self.curr_level", "self.queue_sizes", "self.next_level", "self.lev", "self.posn"],
               ghost_updates={
                   "self.lev": "mapof('int', 'int', lambda l: 0 if l in old(self.next_level) else self.lev[l])",
                   "self.posn": "mapof('int', 'int', lambda l: indexof(self.curr_level[0], l) if l in old(self.next_level) else self.posn[l])"},
               raises={"StopIteration": "all(l not in self.next_level for l in ints())"},
               exc_ensures=[("still empty", "drained(self) and same(self.queue_sizes, old(self.queue_sizes))")],
               ensures=[("some work", "len(self.curr_level[0]) > 0"), ("level counted", "len(self.queue_sizes) == len(old(self.queue_sizes)) + 1")], **kw)
    ALLM = ["self.working", "self.next_level", "self.curr_level", "self._inferral_expanded", "self._initial_expanded", "self.ignore", "self.queue_sizes", "self.staging",
            "self.IssI", "self.Iss", "self.wpos", "self.lev", "self.posn", "self.gi", "self.gn", "self.gm"]
    MONO = ("stop marks stay", "all(implies(l in old(self.ignore), l in self.ignore) for l in ints())")
    w.contract(Q + "_populate_staging",
               requires=[("nothing staged", "len(self.staging) == 0")], modifies=ALLM,
               may_raise={"StopIteration": "True"},
               exc_ensures=[("drained", "drained(self)"), MONO],
               loops={0: {"inv": [MONO, ("was not drained", "implies(old(drained(self)), drained(self))")] + [(a, b) for a, b in INV]},
                      1: {"inv": [MONO, ("was not drained", "implies(old(drained(self)), drained(self))"),
                                  ("no new labels", "len(self.staging) > 0 or len(self.working) == 0")] + [(a, b) for a, b in INV]}},
               ensures=[("staged", "len(self.staging) > 0"), MONO, ("was not drained", "not old(drained(self))")], **kw)
    w.contract(Q + "__next__", returns="WorkPacket", modifies=ALLM + ["self.H", "self.Hinf"],
               may_raise={"StopIteration": "True"},
               exc_ensures=[("nothing left", "drained(self)"),
                            ("every added label is complete or was stopped", "all(implies(l in self.added, l in self.stopped or complete(self, l)) for l in ints())"), MONO],
               ghost_updates={"self.Hinf": "with_(self.Hinf, result.label) if result.inferral else self.Hinf",
                              "self.H": "self.H if result.inferral else with_(self.H, ps(result.label, result.strategies[0]))"},
               loops={0: {"inv": [MONO, ("was not drained", "implies(old(drained(self)), drained(self))")] + [(a, b) for a, b in INV]},
                      1: {"inv": [MONO, ("was not drained", "implies(old(drained(self)), drained(self))")] + [(a, b) for a, b in INV]}},
               ensures=[("never a stopped label", "result.label not in self.ignore and result.label not in old(self.ignore)"), MONO,
                        ("never twice", "implies(result.inferral, result.label not in old(self.Hinf)) and implies(not result.inferral, len(result.strategies) == 1 and ps(result.label, result.strategies[0]) not in old(self.H))"),
                        ("inferral first", "implies(not result.inferral, handedInf(self, result.label))"),
                        ("initial before expansion", "implies(not result.inferral and phase(result.strategies[0]) > 0, handedInit(self, result.label))"),
                        ("expansion sets in order", "implies(not result.inferral and phase(result.strategies[0]) > 0, handedExp(self, result.label, phase(result.strategies[0]) - 1))"),
                        ("an exhausted queue stays exhausted", "not old(drained(self))")], **kw)
    return w
