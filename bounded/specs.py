"""Specifications obtained from real searches over the word domain, in every configuration."""
import random

import dom
import c14
from core import Skip, Unit, unit_rng
from search import DBS, MODES, describe, do_steps, fake_clock, searcher

from comb_spec_searcher import CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import (ExceededMaxtimeError, InvalidOperationError, SpecificationNotFound,
                                          StrategyDoesNotApply)
from comb_spec_searcher.strategies import EmptyStrategy
from comb_spec_searcher.strategies.strategy import AbstractStrategy
from comb_spec_searcher.strategies.rule import (AbstractRule, EquivalencePathRule, EquivalenceRule, ReverseRule,
                                                VerificationRule)


class VerSingleton(dom._BruteVer):
    """verifies the named classes only, so that others must be found by reversing rules"""

    def __init__(self, prefixes=("",), ignore_parent=False):
        super().__init__(ignore_parent)
        self.prefixes = tuple(prefixes)

    def verified(self, c):
        return c.kind == "W" and not c.data[3] and c.data[0] in self.prefixes and not c.is_empty()

    def get_genf(self, comb_class, funcs=None):
        raise NotImplementedError

    def to_jsonable(self):
        d = super().to_jsonable()
        d["prefixes"] = list(self.prefixes)
        return d

    def __repr__(self):
        return f"specs.VerSingleton({self.prefixes!r})"


def all_packs(mode):
    P = StrategyPack
    out = c14.more_packs(mode)
    at = [dom.StatAtom()]
    out["upver"] = P([], [], [[dom.UpFac(mode)]], at + [VerSingleton(("", "b", "bb"))], "upver")
    out["upver2"] = P([dom.UpFac(mode)], [dom.Normal("canon")], [[dom.Split(mode)]],
                      at + [VerSingleton(("", "ab", "ba", "bb"))], "upver2")
    out["unaryprod"] = P([dom.Split(mode)], [dom.Same("canon")], [[dom.Expand(mode)]], at, "unaryprod")
    out["unaryprod2"] = P([dom.Split(mode)], [], [[dom.Same("merge"), dom.Half(mode)], [dom.Next(mode)]], at, "unaryprod2")
    out["iter2"] = P([dom.Split(mode), dom.Expand(mode)], [dom.DropLetter(mode)], [[dom.Split2(mode)]],
                     at + [dom.VerFree(), dom.VerUnary()], "iter2", iterative=True)
    out["iterprefix"] = P([dom.Expand(mode)], [], [[dom.Split(mode)]], at + [dom.VerPrefix(2)], "iterprefix",
                          iterative=True)
    out["prefix3"] = P([dom.Split(mode)], [dom.Reduce(mode)], [[dom.Expand(mode)]],
                       at + [dom.VerPrefix(3, ignore_parent=False)], "prefix3")
    out["symcat"] = P([dom.CatSplit(mode), dom.DyckUnion(mode), dom.DyckProd(mode), dom.Split(mode)], [dom.Normal("canon")],
                      [[dom.Half(mode), dom.Next(mode)]], at, "symcat", symmetries=[dom.Sym()])
    out["twist"] = P([dom.Split(mode)], [], [[dom.Twist(mode)]], at, "twist")
    out["twistinfer"] = P([dom.SplitLast(mode)], [dom.Reduce(mode), dom.DropLetter(mode)], [[dom.Twist(mode)]], at, "twistinfer")
    out["turn"] = P([dom.Split(mode)], [], [[dom.Turn(mode), dom.Expand(mode)]], at, "turn")
    return out


PACKS = ("basic", "half", "infer", "halfinfer", "normal", "two", "factory", "ready", "foreign", "free", "unary", "prefix",
         "cat", "sym", "syminfer", "iter", "iterfree", "far", "both", "upfac", "bothinfer", "upver", "upver2", "unaryprod",
         "unaryprod2", "iter2", "iterprefix", "prefix3", "symcat", "twist", "twistinfer", "turn")
ALLMODES = ("keep", "drop", "merge", "canon", "rand1", "rand2", "rand3")


def start_for(rng, pname, cls=dom.Lang, stats=True):
    while True:
        c = dom.start_classes(rng, 1, cls=cls, stats=stats,
                              cat=0.6 if pname in ("cat", "symcat") else 0.0)[0]
        if pname.startswith("upver"):
            # a start class reached only from its verified parent
            p, pats, alph, j = c.data
            if len(p) != 1 or alph == "a":
                continue
            if c.make("W", ("", pats, alph, False)).is_empty():
                continue
        return c


def configure(rng, pname, mode, db, cls=dom.Lang, stats=True):
    start = start_for(rng, pname, cls, stats)
    opts = {"expand_verified": rng.random() < 0.2, "smallest": rng.random() < 0.3, "perc": rng.choice([1, 1, 10, 100]),
            "tick": rng.choice([0.00002, 0.0005, 0.01]), "minimize": rng.choice([0, 0.01, 0.2]),
            "how": rng.choice(["auto", "auto", "steps", "interrupted", "level"]), "seed": rng.randrange(10 ** 6)}
    if db.startswith("forest"):
        opts["how"] = rng.choice(["auto", "auto", "steps", "interrupted"])
        opts["smallest"] = False
    return start, opts


def cap_queue(s, cap):
    """a search on an infinite universe must end: the queue dries up after cap packets"""
    q = s.classqueue
    real = type(q).__next__
    state = {"n": 0}

    class Capped(type(q)):
        def __next__(self):
            state["n"] += 1
            if state["n"] > cap:
                raise StopIteration
            return real(self)
    q.__class__ = Capped
    return state


def find(ctx, rng, pname, mode, db, cls=dom.Lang, stats=True, cap=120, config=None):
    """-> (spec, searcher, data); Skip when no specification was found in the universe"""
    start, opts = config or configure(rng, pname, mode, db, cls, stats)
    pack = all_packs(mode)[pname]
    data = describe(start, pname, mode, db, options=opts)
    data["pack"] = f"specs.all_packs({mode!r})[{pname!r}]"
    ctx.input = data
    random.seed(opts["seed"])
    fake_clock(opts["tick"])
    s = searcher(start, pack, db, expand_verified=opts["expand_verified"])
    how = opts["how"]
    smallest = opts["smallest"] and not pack.iterative
    try:
        if how == "auto":
            cap_queue(s, cap)
            spec = s.auto_search(smallest=smallest, perc=opts["perc"])
        elif how == "interrupted":
            cap_queue(s, cap)
            for _ in range(400):
                try:
                    spec = s.auto_search(smallest=smallest, perc=opts["perc"], max_expansion_time=0)
                    break
                except ExceededMaxtimeError:
                    continue
            else:
                raise Skip("never finished")
        elif how == "level":
            from comb_spec_searcher.exception import NoMoreClassesToExpandError
            for _ in range(4):
                if len(s.classdb.comb_class_list) > 150:
                    break
                try:
                    s.do_level()
                except NoMoreClassesToExpandError:
                    break
            kw = {"smallest": True} if smallest else {"minimization_time_limit": opts["minimize"]}
            spec = s.get_specification(**kw)
        else:
            k = rng.choice([5, 10, 20, 40, cap])
            while True:
                more = do_steps(s, k)
                if s.has_specification() or not more or len(s.classdb.comb_class_list) > 250:
                    break
            if rng.random() < 0.5:
                do_steps(s, rng.choice([3, 10, 30]))
            kw = {"smallest": True} if smallest else {"minimization_time_limit": opts["minimize"]}
            spec = s.get_specification(**kw)
    except SpecificationNotFound:
        return None, s, data
    ctx.note("specs")
    ctx.note("specs/" + pname)
    return spec, s, data


def stream(ctx, name, pname, mode, db, tries, cls="Lang", stats=True, want=None):
    """yield found specifications"""
    rng = unit_rng(ctx, name)
    got = 0
    for _ in range(tries):
        spec, s, data = find(ctx, rng, pname, mode, db, cls=getattr(dom, cls), stats=stats)
        if spec is None:
            ctx.note("none/" + pname)
            continue
        got += 1
        yield rng, spec, s, data
        if want and got >= want:
            return


def grid(fn, tier, name="specs", quick=1, thorough=6, tries=3, modes=None, dbs=("default", "forget", "forest", "forestnr"),
         pnames=PACKS, timeout=90, extra=()):
    us = []
    n = quick if tier == "quick" else thorough
    import itertools
    combos = []
    modes = modes or ALLMODES
    for i, pname in enumerate(pnames):
        for j, db in enumerate(dbs):
            for k in range(n):
                ms = modes if tier != "quick" else (modes[(i + j) % len(modes)], modes[(i + 3 * j + 2) % len(modes)])
                for mode in ms:
                    combos.append((pname, mode, db, k))
    for pname, mode, db, k in dict.fromkeys(combos):
        nm = f"{name}/{pname}/{mode}/{db}/{k}"
        us.append(Unit(nm, fn, nm, pname, mode, db, tries, *extra, timeout=timeout))
    return us
