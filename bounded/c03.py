"""C03 bounded stand-in: TableMethod / RuleDBForest against an independent least fixed point."""
import itertools

from core import Skip, Unit, unit_rng
from fp import lfp

from comb_spec_searcher.rule_db.forest import RuleDBForest, TableMethod
from comb_spec_searcher.typing import ForestRuleKey, RuleBucket

RULE = ("a case is one insertion into the table method after which the whole function is compared with "
        "the least fixed point; non-trivial: distinct (set of rules)")
BOUND = ("random: <= 8 classes, <= 16 rules, <= 4 children, shifts in -4..6, several insertion orders; "
         "exhaustive: all sets of <= 2 rules over 2 classes with <= 2 children and shifts in -2..2")


def key(r, b=RuleBucket.NORMAL):
    return ForestRuleKey(r[0], r[1], r[2], b)


def compare(ctx, tm, rules, data):
    exp = {k: v for k, v in lfp(rules).items() if v != 0}
    got = tm.function
    ctx.check(got == exp, "function", lambda: f"function is {got}, least fixed point {exp}", data)
    labels = {r[0] for r in rules} | {c for r in rules for c in r[1]}
    for k in labels:
        ctx.check(tm.is_pumping(k) is (k in exp and exp[k] is None), "is_pumping", f"is_pumping({k})", data)
    inf = {k for k, v in exp.items() if v is None}
    ctx.check(set(tm.stable_subset()) == inf, "stable", "stable_subset", data)
    sub = sorted((k.parent, k.children, k.shifts) for k in tm.pumping_subuniverse())
    want = sorted(r for r in rules if r[0] in inf and inf.issuperset(r[1]))
    ctx.check(sub == want, "subuniverse", lambda: f"pumping_subuniverse {sub}, expected {want}", data)


def run(ctx, rules, every=True):
    tm = TableMethod()
    done = []
    prev = {}
    for r in rules:
        tm.add_rule_key(key(r))
        done.append(r)
        if every or len(done) == len(rules):
            compare(ctx, tm, done, {"inserted rules (parent, children, shifts) in order": list(done)})
            f = tm.function
            for k, v in prev.items():
                ctx.check(k in f and (f[k] is None or (v is not None and f[k] >= v)), "monotone",
                          f"value of {k} fell from {v} to {f.get(k)}", list(done))
            prev = f
            ctx.ev(tuple(sorted(done)))


def rand_rules(rng, n, m, style):
    labs = list(range(n)) if rng.random() < 0.8 else rng.sample(range(3 * n), n)
    out = []
    lo, hi = rng.choice([(0, 2), (-1, 2), (-2, 3), (-4, 6), (0, 1), (-1, 1), (1, 5), (-3, 0)])
    for _ in range(m):
        p = rng.choice(labs)
        if rng.random() < 0.12:
            out.append((p, (), ()))
            continue
        k = rng.choice([1, 1, 2, 2, 3, 4])
        if style == "chain":
            k = rng.choice([1, 1, 1, 2])
        cs = tuple(rng.choice(labs) for _ in range(k))
        if style == "prod":
            ss = tuple(rng.choice([0, 1, 1, 2]) for _ in cs)
        elif style == "mixed" and rng.random() < 0.5:
            ss = tuple(0 for _ in cs)
        else:
            ss = tuple(rng.randint(lo, hi) for _ in cs)
        out.append((p, cs, ss))
    return out


def random_sets(ctx, name, n, m, style):
    rng = unit_rng(ctx, name)
    for _ in range(25):
        rules = rand_rules(rng, n, m, style)
        ctx.input = {"rules": rules}
        run(ctx, rules)
        for _ in range(2):
            rng.shuffle(rules)
            run(ctx, rules, every=False)
    ctx.samples.append({"rules": rules})


def reverse_sets(ctx, name):
    """families closed under the library's reverse shift rule, long chains, growing gaps"""
    rng = unit_rng(ctx, name)
    for _ in range(15):
        base = rand_rules(rng, rng.randint(3, 7), rng.randint(3, 7), "prod")
        rules = []
        for p, cs, ss in base:
            rules.append((p, cs, ss))
            for i in range(len(cs)):
                rs = (-ss[i],) + tuple(s - ss[i] for j, s in enumerate(ss) if j != i)
                rules.append((cs[i], (p,) + cs[:i] + cs[i + 1:], rs))
        run(ctx, rules[:14])
        rng.shuffle(rules)
        run(ctx, rules[:14], every=False)


def gaps(ctx, name):
    """the gap grows late, when values are already spread out"""
    rng = unit_rng(ctx, name)
    for _ in range(40):
        n = rng.randint(3, 8)
        rules = []
        for i in range(1, n):
            rules.append((i, (i - 1,) if rng.random() < 0.7 else (i - 1, rng.randrange(n)),) )
            k = len(rules[-1][1])
            rules[-1] = rules[-1] + (tuple(rng.choice([0, 1, 1, 2, 3]) for _ in range(k)),)
        rules.append((0, (rng.randrange(n),), (rng.choice([-6, -3, -1, 0, 1, 2]),)))
        rules.append((0, (n + 1,), (rng.choice([1, 2, 5]),)))
        rules.append((n + 1, (rng.randrange(n),), (rng.choice([-5, -2, 0, 1]),)))
        rules.append((rng.randrange(n), (), ()))
        for _ in range(2):
            rng.shuffle(rules)
            run(ctx, rules)


def allrules():
    out = []
    for p in range(2):
        out.append((p, (), ()))
        for c in range(2):
            for s in range(-2, 3):
                out.append((p, (c,), (s,)))
        for cs in ((0, 0), (0, 1), (1, 1)):
            for ss in itertools.product(range(-2, 3), repeat=2):
                out.append((p, cs, ss))
    return out


def exhaustive(ctx, name, part, parts):
    ar = allrules()
    k = 0
    for a in ar:
        for b in ar:
            k += 1
            if k % parts == part:
                run(ctx, [a, b])


def exhaustive3(ctx, name):
    rng = unit_rng(ctx, name)
    ar = allrules()
    for _ in range(600):
        run(ctx, [rng.choice(ar) for _ in range(rng.choice([3, 4, 5]))])


class FakeRule:
    possibly_empty = False
    children = ()

    def __init__(self, r):
        self.r = r

    def forest_key(self, get_label, is_empty):
        return key(self.r)

    def is_reversible(self):
        return False


class FakeSearcher:
    start_label = 0
    classdb = None
    strategy_pack = None

    class classdb:
        get_label = is_empty = None


def database(ctx, name):
    """the same through RuleDBForest.add / is_verified / has_specification"""
    rng = unit_rng(ctx, name)
    for _ in range(20):
        rules = rand_rules(rng, rng.randint(2, 6), rng.randint(2, 9), "mixed")
        db = RuleDBForest()
        db.link_searcher(FakeSearcher())
        done = []
        for r in rules:
            fr = FakeRule(r)
            fr.children = r[1]
            db.add(r[0], r[1], fr)
            done.append(r)
            f = lfp(done)
            for k in f:
                ctx.check(db.is_verified(k) is (f[k] is None), "db-is_verified", f"is_verified({k})", list(done))
            ctx.check(db.has_specification() is (0 in f and f[0] is None), "db-has_specification",
                      "has_specification", list(done))
            ctx.ev(("db", tuple(sorted(done))))


def units(tier, seed):
    n = 16 if tier == "quick" else 160
    us = []
    for k in range(n):
        for j, (c, m, st) in enumerate([(3, 5, "mixed"), (5, 9, "prod"), (6, 12, "mixed"), (8, 16, "mixed"),
                                        (8, 14, "chain"), (2, 4, "mixed")]):
            nm = f"random/{j}/{k}"
            us.append(Unit(nm, random_sets, nm, c, m, st, hang=True))
        for fn, nm in ((reverse_sets, "reverse"), (gaps, "gaps"), (exhaustive3, "triples"), (database, "database")):
            us.append(Unit(f"{nm}/{k}", fn, f"{nm}/{k}", hang=True))
    for p in range(16):
        us.append(Unit(f"exhaustive/{p}", exhaustive, f"exhaustive/{p}", p, 16, hang=True))
    return us
