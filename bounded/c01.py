"""C01 bounded stand-in: counts of returned specifications against enumeration."""
import itertools

from specs import grid, stream
from core import Unit

RULE = ("a case is one specification returned by a search, evaluated at every size <= 6 and every parameter "
        "value and compared with brute-force enumeration; non-trivial: distinct (start class, pack, database, options)")
BOUND = "word/Dyck languages with <= 3 letters, <= 3 statistics, patterns of length <= 3, sizes <= 6, <= 120 work packets"
NMAX = 6


def enumerate_ok(ctx, spec, start, data, nmax=NMAX):
    for n in range(nmax + 1):
        true = start.true_terms(n)
        terms = spec.get_terms(n)
        ctx.check({k: v for k, v in terms.items() if v} == dict(true), "terms",
                  lambda: f"size {n}: specification {dict(terms)}, true {dict(true)}", data)
        pars = start.extra_parameters
        for vals in itertools.product(range(min(n, 4) + 1), repeat=len(pars)):
            got = spec.count_objects_of_size(n, **dict(zip(pars, vals)))
            ctx.check(got == true[vals], "count", lambda: f"count_objects_of_size({n}, {dict(zip(pars, vals))}) = {got}, true {true[vals]}", data)


def run(ctx, name, pname, mode, db, tries, cls="Lang"):
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, cls):
        ctx.check(spec.root == s.start_class, "root", f"the specification's root is {spec.root!r}", data)
        enumerate_ok(ctx, spec, s.start_class, data)
        ctx.ev(data)
        if rng.random() < 0.05:
            ctx.samples.append(data)


def units(tier, seed):
    us = grid(run, tier, tries=3)
    us += grid(run, tier, name="specsB", tries=2, pnames=("infer", "half", "cat", "sym"), extra=("LangB",))
    us += grid(run, tier, name="specsH", tries=2, pnames=("infer", "half", "syminfer"), extra=("LangH",))
    return us
