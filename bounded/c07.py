"""C07 bounded stand-in: generated objects against enumeration; object maps of every rule form."""
import itertools
from collections import Counter, defaultdict

from core import Unit, unit_rng
import c09
import dom
from specs import grid, stream

from comb_spec_searcher.strategies.rule import EquivalencePathRule, VerificationRule

RULE = ("a case is one (specification, size) whose generated objects are compared as lists with enumeration, or one "
        "object mapped forward and back by one rule form; non-trivial: distinct (class, strategy, form, object) / "
        "(start, pack, database, options, size)")
BOUND = "word/Dyck languages with <= 3 letters and <= 3 statistics, objects of size <= 5, chains of <= 4 equivalences"
NMAX = 5


def true_objects(c, n):
    d = defaultdict(list)
    for w in c.objects_of_size(n):
        d[c.get_parameters(w)].append(w)
    return d


def maps_ok(ctx, rule, data, nmax=4):
    for n in range(nmax + 1):
        for w in rule.comb_class.objects_of_size(n):
            d = dict(data, object=str(w))
            parts = rule.forward_map(w)
            ctx.check(len(parts) == len(rule.children), "parts", lambda: f"{len(parts)} parts for {len(rule.children)} children", d)
            for c, o in zip(rule.children, parts):
                ctx.check(o is None or c.has(o), "part-not-in-child", lambda: f"part {o!r} is not in {c!r}", d)
            ctx.check(any(o is not None for o in parts), "no-parts", "every part is None", d)
            back = list(rule.backward_map(parts))
            ctx.check(back == [w], "roundtrip", lambda: f"{w!r} -> {parts!r} -> {back!r}", d)
            ctx.check(rule.indexed_backward_map(*rule.indexed_forward_map(w)) == w, "indexed-roundtrip", lambda: f"{w!r}", d)
            ctx.ev((data.get("class"), data.get("strategy"), data.get("form"), data.get("chain"), str(w)))


def objects_ok(ctx, rule, data, nmax=NMAX):
    def prov(c):
        return lambda n: true_objects(c, n)
    rule.subobjects = tuple(prov(c) for c in rule.children)
    for n in range(nmax + 1):
        got = rule.get_objects(n)
        true = true_objects(rule.comb_class, n)
        ctx.check({k: sorted(v) for k, v in got.items() if v} == {k: sorted(v) for k, v in true.items()}, "objects",
                  lambda: f"size {n}: rule gives { {k: sorted(v) for k, v in got.items()} }, true {dict(true)}", data)
        ctx.ev((data.get("class"), data.get("strategy"), data.get("form"), data.get("chain"), n))


def forms(ctx, name, mode):
    rng = unit_rng(ctx, name)
    for c in c09.classes(rng, mode, 3):
        for rule in c09.base_rules(c, mode):
            for fname, make in c09.forms(rule):
                r = make()
                data = {"class": repr(c), "strategy": f"dom.{rule.strategy!r}", "form": fname,
                        "children": [repr(k) for k in rule.children]}
                ctx.input = data
                if fname.startswith("reverse("):
                    if not rule.is_equivalence():
                        continue
                    maps_ok(ctx, r, data)  # objects of complements are not implemented by design
                    continue
                maps_ok(ctx, r, data)
                if fname in ("rule", "path") or (fname == "equivalence"):
                    objects_ok(ctx, r, data)


def chains(ctx, name, mode):
    rng = unit_rng(ctx, name)

    class Probe:
        """run the chain builder of c09 with the object checks instead of the counting check"""
    saved = c09.check_form

    def check(ctx, rule, data, nmax=0, shifts=False):
        if len(rule.rules) == 0:
            return
        maps_ok(ctx, rule, data)
        objects_ok(ctx, rule, data)
    c09.check_form = check
    try:
        c09.chains(ctx, name, mode, False)
    finally:
        c09.check_form = saved


def supports(spec):
    """every rule implements object maps (complements and quotients do not, by design)"""
    from comb_spec_searcher.strategies.constructor import Complement, Quotient
    return all(isinstance(r, VerificationRule) or not isinstance(r.constructor, (Complement, Quotient))
               for r in spec.rules_dict.values())


def specs(ctx, name, pname, mode, db, tries, cls="Lang"):
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, cls):
        if not supports(spec):
            ctx.note("unsupported")
            continue
        start = s.start_class
        pars = start.extra_parameters
        for n in range(NMAX + 1):
            true = true_objects(start, n)
            for vals in itertools.product(range(min(n, 4) + 1), repeat=len(pars)):
                p = dict(zip(pars, vals))
                got = list(spec.generate_objects_of_size(n, **p))
                ctx.check(sorted(got) == sorted(true.get(vals, [])), "generate",
                          lambda: f"generate_objects_of_size({n}, {p}) = {sorted(got)}, true {sorted(true.get(vals, []))}", data)
                cnt = spec.count_objects_of_size(n, **p)
                ctx.check(len(got) == cnt, "count", lambda: f"size {n} {p}: {len(got)} objects generated, count {cnt}", data)
            ctx.ev((repr(data), n))
        for rule in spec.rules_dict.values():
            if not isinstance(rule, VerificationRule):
                maps_ok(ctx, rule, dict(data, rule=str(rule)), 3)


def units(tier, seed):
    us = []
    n = 2 if tier == "quick" else 20
    for mode in ("keep", "drop", "merge", "canon") + tuple(f"rand{i}" for i in range(6)):
        for k in range(n):
            nm = f"forms/{mode}/{k}"
            us.append(Unit(nm, forms, nm, mode, timeout=90))
            nm = f"chains/{mode}/{k}"
            us.append(Unit(nm, chains, nm, mode, timeout=90))
    us += grid(specs, tier, tries=1, thorough=4)
    return us
