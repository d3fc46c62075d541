"""Shared helpers running real searches over the word domain."""
import os
import random

from dom import (DropLetter, Expand, ForeignFac, Half, Lang, LangB, LangH, Next, Normal, ReadyFac, Reduce, Split,
                 Split2, SplitLast, StatAtom, StratFac, Sym, UpFac, VerFree, VerPrefix, VerSingle, VerUnary,
                 CatSplit, DyckProd, DyckUnion, packs, start_classes)

from comb_spec_searcher import CombinatorialSpecificationSearcher
from comb_spec_searcher.rule_db import RuleDB, RuleDBForest, RuleDBForgetStrategy

DBS = {
    "default": RuleDB,
    "forget": RuleDBForgetStrategy,
    "forest": RuleDBForest,
    "forestnr": lambda: RuleDBForest(reverse=False),
}
MODES = ("keep", "drop", "merge", "canon")


def searcher(start, pack, db="default", **kw):
    return CombinatorialSpecificationSearcher(start, pack, ruledb=DBS[db](), **kw)


def describe(start, pname, mode, db=None, **kw):
    d = {"start class": repr(start), "pack": f"dom.packs({mode!r})[{pname!r}]"}
    if db:
        d["ruledb"] = db
    d.update(kw)
    return d


def do_steps(s, n):
    """n expansion steps of the searcher; False when the queue ran dry"""
    for _ in range(n):
        try:
            lab, strats, inf = next(s.classqueue)
        except StopIteration:
            return False
        s._expand(s.classdb.get_class(lab), lab, strats, inf)
    return True


class Clock:
    """deterministic replacement of the time module inside the library"""

    def __init__(self, tick=0.0005):
        self.t, self.tick = 1000.0, tick

    def time(self):
        self.t += self.tick
        return self.t

    def __getattr__(self, name):
        import time as real
        return getattr(real, name)


def fake_clock(tick=0.0005):
    import comb_spec_searcher.class_db as a
    import comb_spec_searcher.comb_spec_searcher as b
    import comb_spec_searcher.rule_db.forest as c
    import comb_spec_searcher.tree_searcher as d
    ck = Clock(tick)
    for m in (a, b, c, d):
        if hasattr(m, "time"):
            m.time = ck
    return ck
