"""C20 bounded stand-in: emitted equations against true series; closed forms beyond the checked order."""
import itertools
from collections import Counter

import sympy

from core import Skip, Unit, unit_rng
import c09
import dom
from specs import grid, stream, VerificationRule

from comb_spec_searcher.exception import (IncorrectGeneratingFunctionError, InvalidOperationError, SpecificationNotFound,
                                          StrategyDoesNotApply)
from sympy.core.function import AppliedUndef

RULE = ("a case is one equation of one rule form or of one specification whose two sides are expanded, coefficient by "
        "coefficient, with every class function replaced by the true series of the class in x and its statistics, or "
        "one closed form whose Taylor coefficients are compared with counts; non-trivial: distinct (class, strategy, "
        "form) / (start, pack, database, options, class)")
BOUND = ("word/Dyck languages with <= 3 letters and <= 3 statistics; equations to order 7, closed forms to order 16 "
         "(24 when rational); the built-in selection looks at orders <= 6")
ORDER = 7
x = sympy.var("x")


class Series:
    """truncated series: {(n, frozenset of (variable, exponent))} -> rational"""

    def __init__(self, terms):
        self.t = {k: v for k, v in terms.items() if v != 0 and k[0] <= ORDER}

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return Series(r)

    def __mul__(self, o):
        r = {}
        for (n, a), v in self.t.items():
            for (m, b), w in o.t.items():
                if n + m > ORDER:
                    continue
                d = Counter(dict(a))
                d.update(dict(b))
                k = (n + m, frozenset((s, e) for s, e in d.items() if e))
                r[k] = r.get(k, 0) + v * w
        return Series(r)


def const(v):
    return Series({(0, frozenset()): v})


def fun_series(ctx, app, comb_class):
    """true series of the class at the arguments of the applied function (monomials)"""
    args = app.args
    pars = comb_class.extra_parameters
    if len(args) != 1 + len(pars):
        raise ValueError(f"{app} does not have the arguments of {comb_class!r}")
    if args[0] != x:
        raise ValueError(f"size argument of {app}")
    out = Series({})
    mons = []
    for a in args[1:]:
        d = {}
        for b, e in a.as_powers_dict().items():
            if b == 1:
                continue
            d[str(b)] = int(e)
        mons.append(d)
    terms = {}
    for n in range(ORDER + 1):
        for vals, cnt in comb_class.true_terms(n).items():
            d = Counter()
            for m, v in zip(mons, vals):
                for s, e in m.items():
                    d[s] += e * v
            k = (n + d.pop("x", 0), frozenset((s, e) for s, e in d.items() if e))
            terms[k] = terms.get(k, 0) + cnt
    out = Series(terms)
    return out


def expand(ctx, expr, funs):
    """polynomial expression in symbols and applied functions -> truncated series"""
    if isinstance(expr, AppliedUndef):
        return fun_series(ctx, expr, funs[type(expr).__name__])
    if expr.is_Number:
        return const(expr)
    if expr.is_Symbol:
        return Series({(1, frozenset()): 1}) if expr == x else Series({(0, frozenset([(str(expr), 1)])): 1})
    if expr.is_Add:
        r = Series({})
        for a in expr.args:
            r = r + expand(ctx, a, funs)
        return r
    if expr.is_Mul:
        r = const(1)
        for a in expr.args:
            r = r * expand(ctx, a, funs)
        return r
    if expr.is_Pow and expr.exp.is_Integer and expr.exp >= 0:
        b = expand(ctx, expr.base, funs)
        r = const(1)
        for _ in range(int(expr.exp)):
            r = r * b
        return r
    raise NotImplementedError(str(expr))


def satisfied(ctx, eq, funs, data):
    if eq == True:  # noqa: E712
        return
    ctx.check(eq != False, "false-equation", "the equation is identically false", data)  # noqa: E712
    diff = eq.lhs - eq.rhs
    if any(type(f).__name__ == "NOTIMPLEMENTED" for f in diff.atoms(AppliedUndef)):
        ctx.note("not-implemented")
        return
    try:
        num, _ = sympy.fraction(sympy.together(diff))
        res = expand(ctx, num, funs)
    except NotImplementedError:
        ctx.note("not-evaluated")
        return
    ctx.check(not res.t, "equation", lambda: f"{eq} fails at {sorted(map(str, res.t.items()))[:3]}", data)


def namer():
    labels = {}

    def get_label(c):
        return labels.setdefault(c, len(labels))

    def funs():
        return {f"F_{i}": c for c, i in labels.items()}

    def get_function(c):
        return c.get_function(get_label)
    return get_function, labels, funs


def by_name(labels, get_function):
    return {type(get_function(c)).__name__: c for c in list(labels)}


def form_equation(ctx, rule, data):
    get_function, labels, _ = namer()
    try:
        eq = rule.get_equation(get_function)
    except NotImplementedError:
        ctx.note("raises NotImplementedError")
        return
    satisfied(ctx, eq, by_name(labels, get_function), data)
    ctx.ev((data.get("class"), data.get("strategy"), data.get("form"), str(data.get("chain"))))


def forms(ctx, name, mode):
    rng = unit_rng(ctx, name)
    for c in c09.classes(rng, mode, 3):
        for rule in c09.base_rules(c, mode):
            for fname, make in c09.forms(rule):
                data = {"class": repr(c), "strategy": f"dom.{rule.strategy!r}", "form": fname,
                        "children": [repr(k) for k in rule.children]}
                ctx.input = data
                form_equation(ctx, make(), data)


def chains(ctx, name, mode):
    saved = c09.check_form

    def check(ctx, rule, data, nmax=0, shifts=False):
        if rule.rules:
            form_equation(ctx, rule, data)
    c09.check_form = check
    try:
        c09.chains(ctx, name, mode, True)
    finally:
        c09.check_form = saved


def coefficients(expr, order):
    """Taylor coefficients at 0, exactly"""
    num, den = sympy.fraction(sympy.cancel(sympy.together(expr)))
    if num.is_polynomial(x) and den.is_polynomial(x):
        p = [sympy.Rational(c) for c in reversed(sympy.Poly(num, x).all_coeffs())]
        q = [sympy.Rational(c) for c in reversed(sympy.Poly(den, x).all_coeffs())]
        if q[0] == 0:
            return None
        out = []
        for n in range(25):
            v = p[n] if n < len(p) else 0
            for k in range(1, min(n, len(q) - 1) + 1):
                v -= q[k] * out[n - k]
            out.append(v / q[0])
        return out
    ser = sympy.series(expr, x, 0, order + 1).removeO()
    return [ser.coeff(x, i) for i in range(order + 1)]


def true_count(c, spec, n):
    if n <= 8:
        return sum(c.true_terms(n).values())
    return spec.count_objects_of_size(n)


def genf_ok(ctx, spec, start, data, top=24, **kw):
    try:
        g = spec.get_genf(**kw)
    except (IncorrectGeneratingFunctionError, NotImplementedError):
        ctx.note("no closed form")
        return
    co = coefficients(g, 16)
    ctx.check(co is not None, "genf-pole", lambda: f"{g} has a pole at 0", data)
    for n, v in enumerate(co[:top + 1]):
        t = true_count(start, spec, n)
        ctx.check(v == t, "genf", lambda: f"{g}: coefficient of x^{n} is {v}, true {t}", dict(data, genf=str(g)))
    ctx.note("closed forms")
    ctx.ev((repr(data), "genf"))


def spec_equations(ctx, name, pname, mode, db, tries, cls="Lang"):
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, cls):
        try:
            eqs = list(spec.get_equations())
        except IncorrectGeneratingFunctionError:
            ctx.note("verified class without closed form")
            continue
        funs = {}
        for c in spec.comb_classes() | set(spec.rules_dict):
            funs[type(spec.get_function(c)).__name__] = c
        n = 0
        for eq in eqs:
            satisfied(ctx, eq, funs, data)
            n += 1
            ctx.ev((repr(data), n))
        ctx.check(n >= len([r for r in spec.rules_dict.values() if not isinstance(r, VerificationRule)]), "missing",
                  "a rule has no equation", data)


def spec_genf(ctx, name, pname, mode, db, tries):
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, "Lang", False, 2):
        if len(spec.rules_dict) > 14:
            continue
        genf_ok(ctx, spec, s.start_class, data, check=rng.choice([6, 6, 6, 3]))


def late(ctx, name, db):
    """classes whose shortest object is longer than the orders used for the selection"""
    rng = unit_rng(ctx, name)
    from search import fake_clock, searcher
    from specs import all_packs
    for pl in rng.sample(range(0, 14), 3):
        parts = [("W", ("a" * pl, (), "a", True)), ("D", ("(", ")", rng.choice(["all", "non"])))]
        rng.shuffle(parts)
        start = dom.Lang("C", parts, ())
        data = {"start": repr(start), "pack": "specs.all_packs('keep')['cat']", "ruledb": db}
        ctx.input = data
        fake_clock(0.0005)
        s = searcher(start, all_packs("keep")["cat"], db)
        spec = s.auto_search()
        genf_ok(ctx, spec, start, data)


class VerZ(dom.VerFree):
    def verified(self, c):
        return super().verified(c) and "z" in c.data[2]


def wrong_branch(ctx, name):
    """a class found by reversing T = Y + cYdY: its equation has a second branch with a pole,
    hidden from the first coefficients of the root by the length of the other factor"""
    rng = unit_rng(ctx, name)
    from search import fake_clock, searcher
    from comb_spec_searcher import StrategyPack
    for _ in range(3):
        pl = rng.choice([0, 4, 9, 10, 11, 13])
        alph, al2 = rng.choice(["ab", "a", "abe"]), rng.choice(["z", "zy"])
        parts = [("W", ("z" * pl, (), al2, False)), ("W", (rng.choice(["", "", "a"]), (), alph, False))]
        rng.shuffle(parts)
        start = dom.Lang("C", parts, ())
        data = {"start": repr(start), "pack": "c20.wrong_branch", "ruledb": "forest"}
        ctx.input = data
        fake_clock(0.0005)
        pack = StrategyPack([dom.WrapSplit()], [], [[dom.WrapFac()]], [dom.StatAtom(), dom.VerWrap(), VerZ()], "wrap")
        spec = searcher(start, pack, "forest").auto_search()
        genf_ok(ctx, spec, start, data, top=13)


def units(tier, seed):
    us = []
    n = 2 if tier == "quick" else 12
    for mode in ("keep", "drop", "merge", "canon") + tuple(f"rand{i}" for i in range(6)):
        for k in range(n):
            nm = f"forms/{mode}/{k}"
            us.append(Unit(nm, forms, nm, mode, timeout=120))
            nm = f"chains/{mode}/{k}"
            us.append(Unit(nm, chains, nm, mode, timeout=120))
    us += grid(spec_equations, tier, tries=1, thorough=3, timeout=120)
    us += grid(spec_genf, tier, name="genf", tries=1, thorough=3, modes=("keep", "keep"), dbs=("default", "forest"),
               timeout=30)
    for db in ("default", "forest"):
        for k in range(n):
            nm = f"late/{db}/{k}"
            us.append(Unit(nm, late, nm, db, timeout=120))
    for k in range(2 * n):
        nm = f"branch/{k}"
        us.append(Unit(nm, wrong_branch, nm, timeout=120))
    return us
