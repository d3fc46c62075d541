"""C08 bounded stand-in: the exact distribution of samples, by enumerating every outcome of the generator."""
import random
from collections import defaultdict
from fractions import Fraction

from core import Unit, unit_rng
import c09
import c07
import dom
from specs import grid, stream

from comb_spec_searcher.exception import InvalidOperationError
from comb_spec_searcher.strategies.rule import EquivalencePathRule, VerificationRule

RULE = ("a case is the exact distribution of one sampling call (every outcome of the random generator enumerated with its "
        "probability), compared with the uniform distribution on the enumerated objects; non-trivial: distinct "
        "(class, strategy, form, size, parameters) with at least two objects")
BOUND = "word/Dyck languages with <= 3 letters and <= 3 statistics, sizes <= 5 (rules) / <= 4 (whole specifications), <= 20000 paths"


class TooMany(Exception):
    pass


class NotEnumerable(BaseException):
    pass


class Source:
    """drives random.Random._randbelow through every decision sequence"""

    def __init__(self):
        self.script = []

    def below(self, n):
        if self.pos == len(self.script):
            self.script.append([0, n])
        v, m = self.script[self.pos]
        if m != n:
            raise NotEnumerable("the generator is not a function of its past outcomes")
        self.pos += 1
        self.p /= n
        return v

    def distribution(self, fn, limit=20000):
        inst = random._inst
        res = defaultdict(Fraction)
        self.script = []
        paths = 0

        def refuse(*_):
            raise NotEnumerable("random.random was used")
        old = {k: inst.__dict__.get(k) for k in ("_randbelow", "random", "getrandbits")}
        try:
            inst._randbelow = self.below
            inst.random = refuse
            inst.getrandbits = refuse
            while True:
                self.pos, self.p = 0, Fraction(1)
                out = fn()
                res[out] += self.p
                paths += 1
                if paths > limit:
                    raise TooMany
                del self.script[self.pos:]
                while self.script and self.script[-1][0] + 1 >= self.script[-1][1]:
                    self.script.pop()
                if not self.script:
                    return res
                self.script[-1][0] += 1
        finally:
            for k, v in old.items():
                if v is None:
                    inst.__dict__.pop(k, None)
                else:
                    setattr(inst, k, v)


def uniform(ctx, dist, objs, data):
    objs = set(objs)
    ctx.check(set(map(str, dist)) == set(map(str, objs)), "support",
              lambda: f"samples {sorted(map(str, dist))}, objects {sorted(map(str, objs))}", data)
    for o, p in dist.items():
        ctx.check(p == Fraction(1, len(objs)), "probability",
                  lambda: f"{o!s} has probability {p}, should be 1/{len(objs)}: { {str(a): str(b) for a, b in dist.items()} }", data)


def rule_uniform(ctx, rule, data, nmax=4, limit=1500):
    if len(rule.children) * len(rule.comb_class.extra_parameters) > 6:
        nmax = 3
    src = Source()

    def sampler(c):
        def get(n, **par):
            objs = [w for w in c.objects_of_size(n, **par)] if not par or set(par) == set(c.extra_parameters) else None
            if not objs:
                raise ValueError("sampled from nothing")
            return objs[src.below(len(objs))] if len(objs) > 1 else objs[0]
        return get

    def rec(c):
        def get(n, **par):
            return c.true_terms(n)[tuple(par[k] for k in c.extra_parameters)]
        return get
    rule.subterms = tuple(c.true_terms for c in rule.children)
    rule.subsamplers = tuple(sampler(c) for c in rule.children)
    rule.subrecs = tuple(rec(c) for c in rule.children)
    for n in range(nmax + 1):
        for vals, objs in c07.true_objects(rule.comb_class, n).items():
            if len(objs) > 12:
                continue
            par = dict(zip(rule.comb_class.extra_parameters, vals))
            d = dict(data, size=n, parameters=par)
            try:
                dist = src.distribution(lambda: rule.random_sample_object_of_size(n, **par), limit)
            except TooMany:
                ctx.note("too-many")
                continue
            uniform(ctx, dist, objs, d)
            ctx.ev((data.get("class"), data.get("strategy"), data.get("form"), data.get("chain"), n, vals) if len(objs) > 1 else None)


def forms(ctx, name, mode):
    rng = unit_rng(ctx, name)
    for c in c09.classes(rng, mode, 3):
        for rule in c09.base_rules(c, mode):
            for fname, make in c09.forms(rule):
                if fname in ("rule", "path", "equivalence"):
                    data = {"class": repr(c), "strategy": f"dom.{rule.strategy!r}", "form": fname,
                            "children": [repr(k) for k in rule.children]}
                    ctx.input = data
                    rule_uniform(ctx, make(), data)


def chains(ctx, name, mode):
    saved = c09.check_form
    c09.check_form = lambda ctx, rule, data, nmax=0, shifts=False: rule_uniform(ctx, rule, data, 3)
    try:
        c09.chains(ctx, name, mode, False)
    finally:
        c09.check_form = saved


def specs(ctx, name, pname, mode, db, tries, cls="Lang"):
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, cls):
        if not c07.supports(spec):
            ctx.note("unsupported")
            continue
        start = s.start_class
        pars = start.extra_parameters
        for n in range(5):
            true = c07.true_objects(start, n)
            for vals in list(true) + [(9,) * len(pars)] + ([(0,) * len(pars)] if pars else []):
                objs = true.get(vals, [])
                par = dict(zip(pars, vals))
                d = dict(data, size=n, parameters=par)
                if not objs:
                    try:
                        out = spec.random_sample_object_of_size(n, **par)
                        ctx.check(False, "sampled-nothing", lambda: f"there is no object, sampled {out!r}", d)
                    except InvalidOperationError:
                        continue
                if len(objs) > 6:
                    continue
                src = Source()
                try:
                    dist = src.distribution(lambda: spec.random_sample_object_of_size(n, **par), 400)
                except TooMany:
                    ctx.note("too-many")
                    continue
                uniform(ctx, dist, objs, d)
                ctx.ev((repr(data), n, vals) if len(objs) > 1 else None)


def units(tier, seed):
    us = []
    n = 1 if tier == "quick" else 12
    for mode in ("keep", "drop", "merge", "canon") + tuple(f"rand{i}" for i in range(6)):
        for k in range(n):
            nm = f"forms/{mode}/{k}"
            us.append(Unit(nm, forms, nm, mode, timeout=120))
            nm = f"chains/{mode}/{k}"
            us.append(Unit(nm, chains, nm, mode, timeout=120))
    us += grid(specs, tier, tries=1, thorough=4)
    return us
