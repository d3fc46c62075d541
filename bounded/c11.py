"""C11 bounded stand-in: forest extraction judged by the independent fixed point."""
import itertools

from core import Skip, Unit, unit_rng
from fp import lfp, pumping
from c03 import rand_rules
from search import MODES, describe, do_steps, fake_clock, packs, searcher, start_classes
import c14

from comb_spec_searcher.rule_db.forest import ForestRuleExtractor, RuleDBForest, TableMethod
from comb_spec_searcher.strategies.rule import EquivalenceRule, EquivalencePathRule
from comb_spec_searcher.strategies.strategy import EmptyStrategy
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

RULE = ("a case is one extraction from a rule set productive for its root; non-trivial: distinct "
        "(rules with buckets, root)")
BOUND = "abstract: <= 9 classes, <= 24 rules; concrete: word languages with <= 60 expansion steps"
BUCKETS = [RuleBucket.REVERSE, RuleBucket.NORMAL, RuleBucket.EQUIV, RuleBucket.VERIFICATION]


def plain(keys):
    return [(k.parent, k.children, k.shifts) for k in keys]


def judge(ctx, inserted, needed, root, data):
    ctx.check(set(needed) <= set(inserted), "subset", "an extracted rule was never inserted", data)
    lhs = [k.parent for k in needed]
    ctx.check(len(lhs) == len(set(lhs)), "one-per-class", f"several rules for one class: {plain(needed)}", data)
    ctx.check(root in lhs, "root", "no rule for the root", data)
    rhs = {c for k in needed for c in k.children}
    ctx.check(rhs <= set(lhs), "closed", f"classes without a rule: {sorted(rhs - set(lhs))}", data)
    ctx.check(root in pumping(plain(needed)), "productive", f"not productive: {plain(needed)}", data)
    for i in range(len(needed)):
        rest = plain(needed[:i] + needed[i + 1:])
        ctx.check(root not in pumping(rest), "minimal",
                  f"still productive without {plain(needed)[i]}: {plain(needed)}", data)
    if any(k.bucket == RuleBucket.REVERSE for k in needed):
        rest = plain([k for k in inserted if k.bucket != RuleBucket.REVERSE])
        ctx.check(root not in pumping(rest), "reverse", "reverse rules used although not needed", data)
    reach, todo = {root}, [root]
    d = {k.parent: k.children for k in needed}
    while todo:
        for c in d.get(todo.pop(), ()):
            if c not in reach:
                reach.add(c)
                todo.append(c)
    ctx.check(set(lhs) <= reach, "reachable", f"rules for unreachable classes {sorted(set(lhs) - reach)}", data)


class FakeDB:
    def __init__(self, keys):
        self.table_method = TableMethod()
        for k in keys:
            self.table_method.add_rule_key(k)


def abstract(ctx, name, n, m, style):
    rng = unit_rng(ctx, name)
    tries = 0
    done = 0
    while done < 12 and tries < 150:
        tries += 1
        rules = rand_rules(rng, n, m, style)
        rules += [(rng.randrange(n), (), ()) for _ in range(rng.choice([0, 1, 1, 2]))]
        if rng.random() < 0.4:
            rules += [rng.choice(rules) for _ in range(2)]
        w = rng.choice([(1, 1, 1, 1), (3, 3, 1, 1), (5, 1, 0, 1), (1, 5, 2, 1), (1, 1, 5, 0)])
        keys = [ForestRuleKey(p, c, s, RuleBucket.VERIFICATION if not c and rng.random() < 0.7
                              else rng.choices(BUCKETS, w)[0]) for p, c, s in rules]
        rng.shuffle(keys)
        inf = pumping(plain(keys))
        if not inf:
            continue
        root = rng.choice(sorted(inf))
        data = {"root": root, "rules (parent, children, shifts, bucket)": [(k.parent, k.children, k.shifts, k.bucket.name) for k in keys]}
        ctx.input = data
        ex = ForestRuleExtractor(root, FakeDB(keys), None, None)
        ex.check()
        judge(ctx, keys, list(ex.needed_rules), root, data)
        ctx.ev((root, tuple(keys)))
        done += 1
        ctx.samples.append(data)


def concrete(ctx, name, pname, mode, reverse):
    rng = unit_rng(ctx, name)
    fake_clock()
    for _ in range(3):
        start = start_classes(rng, 1, cat=0.5 if pname == "cat" else 0)[0]
        data = describe(start, pname, mode, "forest" if reverse else "forestnr")
        ctx.input = data
        s = searcher(start, c14.more_packs(mode)[pname], "forest" if reverse else "forestnr")
        for _ in range(60):
            if s.ruledb.has_specification() or not do_steps(s, 1):
                break
        for extra in (0, rng.randint(1, 8)):
            do_steps(s, extra)
            if not s.ruledb.has_specification():
                break
            ex = ForestRuleExtractor(s.start_label, s.ruledb, s.classdb, s.strategy_pack)
            ex.check()
            judge(ctx, list(s.ruledb.table_method._rules), list(ex.needed_rules), s.start_label, data)
            rules = list(ex.rules(()))
            got = {}
            for r in rules:
                base = r
                if isinstance(r, EquivalenceRule):
                    base = r.original_rule
                k = base.forest_key(s.classdb.get_label, s.classdb.is_empty)
                got[k] = r
            need = {k for k in ex.needed_rules
                    if not s.classdb.get_class(k.parent).is_empty()}
            ctx.check(set(got) == need, "concrete",
                      lambda: f"keys of the concrete rules {sorted(map(str, set(got) ^ need))} differ", data)
            for k, r in got.items():
                ctx.check(r.comb_class == s.classdb.get_class(k.parent), "concrete-parent", f"{r}", data)
                kids = [s.classdb.get_label(c) for c in r.children if not c.is_empty()]
                ctx.check(sorted(kids) == sorted(c for c in k.children if not s.classdb.get_class(c).is_empty()),
                          "concrete-children", f"{k}: rule has non-empty children {kids}", data)
            ctx.ev((repr(start), pname, mode, reverse, len(rules)))
            ctx.note("specifications", 1)
        ctx.samples.append(data)


def units(tier, seed):
    n = 24 if tier == "quick" else 200
    us = []
    for k in range(n):
        for j, (a, b, st) in enumerate([(3, 6, "mixed"), (5, 12, "prod"), (7, 16, "mixed"), (9, 24, "prod"),
                                        (6, 14, "chain")]):
            nm = f"abstract/{j}/{k}"
            us.append(Unit(nm, abstract, nm, a, b, st, timeout=60))
    for k in range(2 if tier == "quick" else 12):
        for pname in c14.more_packs("keep"):
            for mode in ("keep", "merge"):
                for rev in (True, False):
                    nm = f"concrete/{pname}/{mode}/{int(rev)}/{k}"
                    us.append(Unit(nm, concrete, nm, pname, mode, rev, timeout=90))
    return us
