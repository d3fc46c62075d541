"""C02 bounded stand-in: the rule set of returned specifications, judged independently."""
from specs import (AbstractRule, EmptyStrategy, EquivalencePathRule, EquivalenceRule, ReverseRule, VerificationRule,
                   grid, stream)
from core import Unit
from fp import pumping

from comb_spec_searcher.exception import StrategyDoesNotApply
from comb_spec_searcher.strategies.strategy import AbstractStrategy

RULE = ("a case is one specification returned by a search whose rule set is judged from the outside: closed, one rule "
        "per class, every rule re-derived from the pack, productive by an independent fixed point; non-trivial: "
        "distinct (start class, pack, database, options)")
BOUND = "word/Dyck languages with <= 3 letters, <= 3 statistics, patterns of length <= 3, <= 120 work packets"


class Origins:
    """which (strategy, class) pairs the pack can produce"""

    def __init__(self, pack, classes):
        self.plain = set()
        self.made = {}
        facs = []
        for st in pack:
            if isinstance(st, AbstractStrategy):
                self.plain.add(repr(st))
            else:
                facs.append(st)
        for c in classes:
            for f in facs:
                for got in f(c):
                    if isinstance(got, AbstractRule):
                        self.made.setdefault(repr(got.strategy), set()).add(got.comb_class)
                    else:
                        self.made.setdefault(repr(got), set()).add(c)

    def offers(self, strategy, comb_class):
        r = repr(strategy)
        return r in self.plain or comb_class in self.made.get(r, ())


def genuine(ctx, rule, origins, data):
    """the rule is what its strategy produces when applied to its class (in its form)"""
    if isinstance(rule, EquivalencePathRule):
        ctx.check(len(rule.rules) > 0, "empty-path", "an equivalence path without rules", data)
        cur = rule.comb_class
        for r in rule.rules:
            ctx.check(r.comb_class == cur and len(r.children) == 1, "path-chain", lambda: f"broken chain in {rule}", data)
            genuine(ctx, r, origins, data)
            cur = r.children[0]
        ctx.check(rule.children == (cur,), "path-end", lambda: f"path ends in {cur!r}, children {rule.children!r}", data)
        return
    if isinstance(rule, EquivalenceRule):
        o = rule.original_rule
        ne = tuple(c for c in o.children if not c.is_empty())
        ctx.check(o.comb_class == rule.comb_class and len(ne) == 1 and rule.children == ne, "equivalence-form",
                  lambda: f"{rule!s} is not the equivalence form of {o!s}", data)
        genuine(ctx, o, origins, data)
        return
    if isinstance(rule, ReverseRule):
        o = rule.original_rule
        ctx.check(o.is_reversible(), "irreversible", lambda: f"{o!s} was reversed", data)
        exp = (o.comb_class,) + o.children[:rule.idx] + o.children[rule.idx + 1:]
        ctx.check(rule.comb_class == o.children[rule.idx] and rule.children == exp, "reverse-form",
                  lambda: f"{rule!s} is not a reverse of {o!s}", data)
        genuine(ctx, o, origins, data)
        return
    st = rule.strategy
    if isinstance(st, EmptyStrategy):
        ctx.check(rule.comb_class.is_empty(), "empty-rule", lambda: f"empty rule for the non-empty {rule.comb_class!r}", data)
        return
    ctx.check(origins.offers(st, rule.comb_class), "foreign-strategy",
              lambda: f"{st!r} on {rule.comb_class!r} is not offered by the pack", data)
    try:
        again = st(rule.comb_class)
        kids = again.children
    except StrategyDoesNotApply:
        ctx.check(False, "does-not-apply", f"{st!r} does not apply to {rule.comb_class!r}", data)
    ctx.check(type(again) is type(rule) and tuple(kids) == tuple(rule.children), "children",
              lambda: f"{st!r} on {rule.comb_class!r} gives {kids!r}, the rule has {rule.children!r}", data)
    if isinstance(rule, VerificationRule):
        ctx.check(st.verified(rule.comb_class), "not-verified", lambda: f"{rule.comb_class!r} is not verified by {st!r}", data)


def judge(ctx, spec, start, pack, data, origins=None, classes=None):
    rules = list(spec.rules_dict.values())
    for c, r in spec.rules_dict.items():
        ctx.check(r.comb_class == c, "lhs", lambda: f"the rule stored for {c!r} is about {r.comb_class!r}", data)
    lhs = set(spec.rules_dict)
    ctx.check(start in lhs, "root", "no rule for the start class", data)
    for r in rules:
        for c in r.children:
            if not c.is_empty():
                ctx.check(c in lhs, "closed", lambda: f"no rule for {c!r}, a child in {r!s}", data)
    counts = {}
    for r in rules:
        counts[r.comb_class] = counts.get(r.comb_class, 0) + 1
    ctx.check(all(v == 1 for v in counts.values()), "one-per-class", "a class has two rules", data)
    if origins is None:
        origins = Origins(pack, classes)
    for r in rules:
        genuine(ctx, r, origins, data)
    lab = {c: i for i, c in enumerate(dict.fromkeys([r.comb_class for r in rules] + [c for r in rules for c in r.children]))}
    flat = [(lab[r.comb_class], tuple(lab[c] for c in r.children), tuple(r.shifts())) for r in rules]
    for r in rules:
        for c in r.children:
            if c.is_empty() and c not in spec.rules_dict:
                flat.append((lab[c], (), ()))
    prod = pumping(flat)
    for c in lhs:
        ctx.check(lab[c] in prod, "productive", lambda: f"{c!r} does not yield unboundedly many terms", data)
    return lab


def run(ctx, name, pname, mode, db, tries, cls="Lang"):
    from specs import all_packs
    for rng, spec, s, data in stream(ctx, name, pname, mode, db, tries, cls):
        classes = [s.classdb.get_class(i) for i in range(len(s.classdb.comb_class_list))]
        judge(ctx, spec, s.start_class, all_packs(mode)[pname], data, classes=classes)
        ctx.ev(data)
        if rng.random() < 0.05:
            ctx.samples.append(dict(data, rules=len(spec.rules_dict)))


def units(tier, seed):
    us = grid(run, tier, tries=3, thorough=8)
    us += grid(run, tier, name="specsB", tries=2, pnames=("infer", "half", "sym"), extra=("LangB",))
    us += grid(run, tier, name="specsH", tries=2, pnames=("infer", "half", "syminfer"), extra=("LangH",))
    return us
