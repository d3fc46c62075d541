"""C19 bounded stand-in: expanding the verified classes of specifications found by random searches."""
import copy
import json
import random

import c01
import c02
import c18
import dom
import specs as S
from core import Skip, Unit, unit_rng
from search import describe, fake_clock, searcher, do_steps

from comb_spec_searcher import CombinatorialSpecification, StrategyPack
from comb_spec_searcher.exception import InvalidOperationError, SpecificationNotFound
from comb_spec_searcher.strategies.rule import EquivalencePathRule, EquivalenceRule, ReverseRule, VerificationRule

RULE = ("a case is one specification with strategy-verified classes expanded and compared with the original: counts, "
        "closedness, genuineness, productivity, remaining verified classes, shared objects, state of the original; "
        "non-trivial: distinct (start class, pack, database, options) with at least one class to expand")
BOUND = "word languages with <= 3 letters, <= 3 statistics, sizes <= 5, six expansion packs nested up to three deep"


class VerBy(dom._BruteVer):
    """W with a prefix of length >= k (or the named prefixes), offering the named pack"""

    def __init__(self, k, offer, mode="keep", ignore_parent=True, pats=None):
        super().__init__(ignore_parent)
        self.k, self.offer, self.mode, self.pats = k, offer, mode, pats

    def verified(self, c):
        if c.kind != "W" or c.data[3] or c.is_empty():
            return False
        if self.pats is not None and len(c.data[1]) > self.pats:
            return False
        return len(c.data[0]) >= self.k

    def pack(self, comb_class):
        return offers(self.mode)[self.offer]

    def to_jsonable(self):
        d = super().to_jsonable()
        d.update(k=self.k, offer=self.offer, mode=self.mode, pats=self.pats)
        return d

    def __repr__(self):
        return f"c19.VerBy({self.k}, {self.offer!r}, {self.mode!r}, {self.ignore_parent}, {self.pats!r})"


def offers(mode):
    P = StrategyPack
    at = [dom.StatAtom()]
    return {
        "plain": P([dom.Split(mode)], [], [[dom.Expand(mode)]], at, "plain"),
        "halves": P([dom.Split(mode)], [], [[dom.Half(mode), dom.Next(mode)]], at, "halves"),
        "infer": P([dom.SplitLast(mode)], [dom.Reduce(mode), dom.DropLetter(mode)], [[dom.Half(mode), dom.Next(mode)]], at,
                   "infer"),
        "sym": P([dom.Split(mode)], [dom.Normal("canon")], [[dom.Expand(mode)]], at, "sym", symmetries=[dom.Sym()]),
        # one step, then the classes found are verified again, by a strategy offering the next pack
        "nest": P([dom.Expand(mode), dom.Split(mode)], [], [], at + [VerBy(3, "nest2", mode)], "nest"),
        "nest2": P([dom.Split(mode)], [], [[dom.Expand(mode)]], at + [VerBy(4, "plain", mode)], "nest2"),
        # verified classes without a pack remain
        "keepfree": P([dom.Split(mode)], [dom.DropLetter(mode)], [[dom.Expand(mode)]], at + [dom.VerFree()], "keepfree"),
        # only reversed rules help
        # Y from T(Y) = Y + cYdY with T(Y) verified: only the reversed rule helps
        "wrap": P([dom.WrapSplit()], [], [[dom.WrapFac()]], at + [dom.VerWrap()], "wrap"),
        "up": P([dom.UpFac(mode)], [], [[dom.Split(mode)]], at + [S.VerSingleton(("", "b", "bb"))], "up"),
    }


def cases(mode):
    P = StrategyPack
    at = [dom.StatAtom()]
    out = {}
    for o in ("plain", "halves", "infer", "sym", "nest", "keepfree"):
        out[f"by1-{o}"] = P([dom.Split(mode)], [dom.Reduce(mode)], [[dom.Expand(mode)]], at + [VerBy(1, o, mode)], f"by1-{o}")
        out[f"by2-{o}"] = P([dom.Split(mode)], [], [[dom.Half(mode), dom.Next(mode)]], at + [VerBy(2, o, mode)], f"by2-{o}")
        out[f"mixed-{o}"] = P([dom.Split(mode)], [dom.DropLetter(mode)], [[dom.Expand(mode)]],
                              at + [dom.VerUnary(), VerBy(2, o, mode, False), VerBy(1, "plain", mode, True, 1)], f"mixed-{o}")
    out["by1-wrap"] = P([dom.Split(mode)], [], [[dom.Expand(mode)]], at + [VerBy(1, "wrap", mode)], "by1-wrap")
    out["root-wrap"] = P([dom.Split(mode)], [], [[dom.Expand(mode)]], at + [VerBy(0, "wrap", mode)], "root-wrap")
    out["root"] = P([dom.Split(mode)], [], [[dom.Expand(mode)]], at + [VerBy(0, "plain", mode)], "root")
    out["rootnest"] = P([dom.Split(mode)], [], [[dom.Expand(mode)]], at + [VerBy(0, "nest", mode)], "rootnest")
    out["upcase"] = P([dom.Split(mode), dom.Expand(mode)], [], [[dom.Next(mode)]], at + [S.VerSingleton(("b", "bb")), VerBy(1, "up", mode)], "upcase")
    return out


SOLVABLE = ("plain", "halves", "sym", "nest", "keepfree")


def rule_objects(spec):
    todo, out = list(spec.rules_dict.values()), []
    seen = set()
    while todo:
        r = todo.pop()
        if id(r) in seen:
            continue
        seen.add(id(r))
        out.append(r)
        if isinstance(r, EquivalencePathRule):
            todo.extend(r.rules)
        elif isinstance(r, (EquivalenceRule, ReverseRule)):
            todo.append(r.original_rule)
    return out


def offering(spec):
    out = []
    for c, r in spec.rules_dict.items():
        if isinstance(r, VerificationRule):
            try:
                r.strategy.pack(c)
            except InvalidOperationError:
                continue
            out.append(c)
    return out


def all_strategies(pack):
    todo, out, names = [pack], [], set()
    while todo:
        p = todo.pop()
        if p.name in names:
            continue
        names.add(p.name)
        for st in p:
            out.append(st)
            if isinstance(st, (VerBy, dom.VerUnary, dom.VerPrefix)):
                todo.append(st.pack(None))
    return out


def compare(ctx, spec, new, start, strategies, classes, before, data, rng, nmax=5):
    ctx.check(new.root == start, "root", f"the root changed to {new.root!r}", data)
    left = offering(new)
    ctx.check(not left and not list(new.unexpanded_verified_classes()), "finished",
              lambda: f"{left[:3]} still offer a pack", data)
    a, b = rule_objects(spec), rule_objects(new)
    ids = {id(r): r for r in a}
    shared = [r for r in b if id(r) in ids]
    ctx.check(not shared, "shared-rule", lambda: f"{len(shared)} rule objects are shared, e.g. {type(shared[0]).__name__} "
              f"{shared[0].comb_class!r} -> {shared[0].children!r}", data)
    order = [("old", spec), ("new", new)]
    if rng.random() < 0.5:
        order.reverse()
    for n in range(nmax + 1):
        for nm, s in order:
            terms = {k: v for k, v in s.get_terms(n).items() if v}
            ctx.check(terms == dict(start.true_terms(n)), f"{nm}-terms", lambda: f"size {n}: {terms}, true {dict(start.true_terms(n))}", data)
    cls = list(dict.fromkeys(list(classes) + [c for r in new.rules_dict.values() for c in (r.comb_class,) + tuple(r.children)]))
    for c in list(cls):
        if c.kind == "W" and not c.data[3]:
            for i in range(len(c.data[0])):
                cls.append(c.make("W", (c.data[0][:i], c.data[1], c.data[2], False)))
                for l in c.data[2]:
                    cls.append(c.make("W", (c.data[0][:i] + l, c.data[1], c.data[2], False)))
    c02.judge(ctx, new, start, strategies, data, classes=list(dict.fromkeys(cls)))
    after = json.dumps(c18.js(spec))
    lazily = set(spec.rules_dict) - set(before[1])
    ctx.check(all(c.is_empty() for c in lazily), "original-rules", "the original specification got new rules", data)
    for c in lazily:
        spec.rules_dict.pop(c)
    ctx.check(json.dumps(c18.js(spec)) == before[0], "original-changed", "the original specification changed", data)
    for k in lazily:
        spec.get_rule(k)
    ctx.check([id(r) for r in before[1].values()] == [id(spec.rules_dict[c]) for c in before[1]], "original-changed",
              "rules of the original were replaced", data)
    try:
        for n in range(5):
            for p in start.possible_parameters(n):
                exp = sorted(map(str, start.objects_of_size(n, **p)))
                for nm, s in order:
                    got = sorted(map(str, s.generate_objects_of_size(n, **p)))
                    ctx.check(got == exp, f"{nm}-objects", lambda: f"size {n} {p}: {got}, true {exp}", data)
    except NotImplementedError:
        pass


def run(ctx, name, pname, mode, db, tries):
    rng = unit_rng(ctx, name)
    for _ in range(tries):
        fake_clock(rng.choice([0.00002, 0.0005, 0.01]))
        start = dom.start_classes(rng, 1, stats=rng.random() < 0.7)[0]
        if start.kind != "W":
            continue
        if pname == "upcase":
            p, pats, alph, j = start.data
            start = start.make("W", ("", pats, "ab" if len(alph) < 2 else alph, False))
        pack = cases(mode)[pname]
        seed = rng.randrange(10 ** 6)
        random.seed(seed)
        ev = rng.random() < 0.3
        data = describe(start, pname, mode, db, expand_verified=ev, seed=seed)
        data["pack"] = f"c19.cases({mode!r})[{pname!r}]"
        ctx.input = data
        s = searcher(start, pack, db, expand_verified=ev)
        try:
            S.cap_queue(s, 100)
            spec = s.auto_search(smallest=rng.random() < 0.3 and not db.startswith("forest"))
        except SpecificationNotFound:
            ctx.note("none/" + pname)
            continue
        todo = offering(spec)
        pre = rng.choice([None, 0, 2, 4])
        data["counted before up to"] = pre
        if pre is not None:
            for n in range(pre + 1):
                spec.get_terms(n)
            if rng.random() < 0.5:
                try:
                    list(spec.generate_objects_of_size(pre, **{k: 0 for k in start.extra_parameters}))
                except NotImplementedError:
                    pass
        before = (json.dumps(c18.js(spec)), dict(spec.rules_dict))
        classes = [s.classdb.get_class(i) for i in range(len(s.classdb.comb_class_list))]
        how = rng.choice(["all", "all", "all", "reloaded"])
        if how == "reloaded":
            spec = CombinatorialSpecification.from_dict(c18.js(spec))
            before = (json.dumps(c18.js(spec)), dict(spec.rules_dict))
        data["expanded"] = how
        solvable = all(o in SOLVABLE for o in names_offered(pack))
        try:
            new = spec.expand_verified()
        except SpecificationNotFound:
            ctx.check(not solvable, "not-found", "the offered packs specify every verified class, but no specification was found", data)
            ctx.note("unexpandable")
            continue
        if not todo:
            ctx.check(new is spec or new == spec, "nothing-to-do", "the specification changed though nothing offers a pack", data)
            ctx.ev(None, False)
            continue
        compare(ctx, spec, new, start, all_strategies(pack), classes, before, data, rng)
        ctx.ev(repr(data))
        ctx.note("expanded")
        ctx.note("expanded/" + pname)
        ctx.note("classes", len(todo))
        if any(isinstance(r, ReverseRule) for r in rule_objects(new)):
            ctx.note("with reverse rules")
        if any(isinstance(r, EquivalencePathRule) for r in spec.rules_dict.values()):
            ctx.note("with equivalence paths")
        again = new.expand_verified()
        ctx.check(again is new or again == new, "idempotent", "expanding the expanded specification changes it", data)


def names_offered(pack):
    return {st.offer for st in all_strategies(pack) if isinstance(st, VerBy)} - {"nest2"}


def units(tier, seed):
    us = []
    n = 1 if tier == "quick" else 6
    modes = ("keep", "drop", "merge", "canon", "rand1", "rand2")
    for i, pname in enumerate(cases("keep")):
        for j, db in enumerate(("default", "forget", "forest", "forestnr")):
            for k in range(n):
                ms = modes if tier != "quick" else (modes[(i + j) % 6], modes[(i + 2 * j + 3) % 6])
                for mode in dict.fromkeys(ms):
                    nm = f"expand/{pname}/{mode}/{db}/{k}"
                    us.append(Unit(nm, run, nm, pname, mode, db, 3, timeout=100))
    return us
